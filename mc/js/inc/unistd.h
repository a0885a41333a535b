#pragma once
typedef long off_t; typedef long ssize_t;
