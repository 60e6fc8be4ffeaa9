int isspace(int); int isdigit(int); int isalpha(int); int isupper(int); int tolower(int); int isgraph(int);
