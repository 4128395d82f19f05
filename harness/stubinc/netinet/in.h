#include <arpa/inet.h>
