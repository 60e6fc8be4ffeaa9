double sqrt(double); double fabs(double); double floor(double); double ceil(double); double log(double); double pow(double,double); double cos(double); double sin(double);
