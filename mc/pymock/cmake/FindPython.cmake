set(Python_FOUND TRUE)
set(Python_VERSION 3.12)
