set(Python3_FOUND TRUE)
set(Python3_VERSION 3.12)
