/* What the harness shares with the sequentialised code. */
#include <stdint.h>
struct fstrm_iothr;
extern struct fstrm_iothr *io;
#define VP_PTR_0_0 ((uint8_t *) io)
#define VP_PTR_1_0 ((uint8_t *) io)
#define VP_PTR_2_0 ((uint8_t *) io)
