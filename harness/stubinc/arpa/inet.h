#ifndef VF_INET_H
#define VF_INET_H
#include <endian.h>
#include <stdint.h>
#define htons htobe16
#define ntohs htobe16
#define htonl htobe32
#define ntohl htobe32
#endif
