/* The two crc32 instructions (CRC-32C of one byte / eight bytes), in the form
 * of the definition's linear map; h_lemma shows that it is the definition. */
#ifndef V_CRCHW_H
#define V_CRCHW_H
#include <stdint.h>
uint64_t v_crc_u64(uint64_t c, uint64_t v);
uint32_t v_crc_u8(uint32_t c, uint8_t v);
#define _mm_crc32_u64(c, v) v_crc_u64(c, v)
#define _mm_crc32_u8(c, v) v_crc_u8((uint32_t) (c), v)
#endif
