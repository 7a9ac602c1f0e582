/* What the harness shares with the sequentialised code. */
#include <stdint.h>
struct my_queue;
struct elem { uint8_t id, not_id; };
extern struct my_queue *q;
extern struct elem item[NPROD + 1];
extern unsigned level[NPROD + 1];
#define VP_PTR_0_0 ((uint8_t *) q)
#define VP_PTR_1_0 ((uint8_t *) q)
#define VP_PTR_2_0 ((uint8_t *) q)
#define VP_PTR_0_1 ((uint8_t *) &item[0])
#define VP_PTR_1_1 ((uint8_t *) &item[1])
#define VP_PTR_2_1 ((uint8_t *) &item[2])
#define VP_PTR_0_2 ((uint8_t *) &level[0])
#define VP_PTR_1_2 ((uint8_t *) &level[1])
#define VP_PTR_2_2 ((uint8_t *) &level[2])
