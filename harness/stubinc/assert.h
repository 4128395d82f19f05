/* assert is defined by envmap.h */
