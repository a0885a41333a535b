#pragma once
extern int errno;
#define ENOENT 2
#define EIO 5
#define ENOMEM 12
#define EINVAL 22
#define ERANGE 34
#define EOVERFLOW 75
