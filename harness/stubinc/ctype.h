/* functions are redirected by envmap.h */
