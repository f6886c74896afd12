/* The type tables of the OpenSHMEM 1.5 specification (oracle side; independent of maint/).
 * X(C type, TYPENAME, size, kind)  kind: 0 integer unsigned, 1 integer signed, 2 real, 3 complex */
#define VP_RMA_TYPES(X) \
    X(float, float, 2) X(double, double, 2) X(long double, longdouble, 2) X(char, char, 1) \
    X(signed char, schar, 1) X(short, short, 1) X(int, int, 1) X(long, long, 1) X(long long, longlong, 1) \
    X(unsigned char, uchar, 0) X(unsigned short, ushort, 0) X(unsigned int, uint, 0) \
    X(unsigned long, ulong, 0) X(unsigned long long, ulonglong, 0) X(int8_t, int8, 1) X(int16_t, int16, 1) \
    X(int32_t, int32, 1) X(int64_t, int64, 1) X(uint8_t, uint8, 0) X(uint16_t, uint16, 0) \
    X(uint32_t, uint32, 0) X(uint64_t, uint64, 0) X(size_t, size, 0) X(ptrdiff_t, ptrdiff, 1)
#define VP_AMO_STD_TYPES(X) \
    X(int, int, 1) X(long, long, 1) X(long long, longlong, 1) X(unsigned int, uint, 0) \
    X(unsigned long, ulong, 0) X(unsigned long long, ulonglong, 0) X(int32_t, int32, 1) X(int64_t, int64, 1) \
    X(uint32_t, uint32, 0) X(uint64_t, uint64, 0) X(size_t, size, 0) X(ptrdiff_t, ptrdiff, 1)
#define VP_AMO_EXT_TYPES(X) X(float, float, 2) X(double, double, 2) VP_AMO_STD_TYPES(X)
#define VP_AMO_BIT_TYPES(X) \
    X(unsigned int, uint, 0) X(unsigned long, ulong, 0) X(unsigned long long, ulonglong, 0) \
    X(int32_t, int32, 1) X(int64_t, int64, 1) X(uint32_t, uint32, 0) X(uint64_t, uint64, 0)
#define VP_SIZES(X) X(8, 1) X(16, 2) X(32, 4) X(64, 8) X(128, 16)
