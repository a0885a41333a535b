#pragma once
int isspace(int); int isdigit(int); int tolower(int); int toupper(int); int isalpha(int);
