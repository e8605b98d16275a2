/* C01: CRC-32C against its bitwise definition. */
#include "verif.h"
#include "sc_crc32.h"

#ifndef ALIGN
#define ALIGN 0
#endif
#ifndef LEN
#define LEN 8
#endif
#define POLY_REV 0x82f63b78u

/* the definition: one bit at a time */
static uint32_t def_byte(uint32_t c, uint8_t b)
{
	c ^= b;
	for (int i = 0; i < 8; i++)
		c = (c >> 1) ^ ((c & 1) ? POLY_REV : 0);
	return c;
}

/* The same function in the form of its linear map: lin[k][i] is what bit i of
 * a byte followed by k bytes contributes (computed from the definition). */
static uint32_t lin[8][8];
static void lin_init(void)
{
	for (int i = 0; i < 8; i++) {
		uint32_t c = def_byte(0, (uint8_t) (1u << i));
		for (int k = 0; k < 8; k++) {
			lin[k][i] = c;
			c = def_byte(c, 0);
		}
	}
}
static uint32_t contrib(uint8_t b, int k)
{
	uint32_t r = 0;
	for (int i = 0; i < 8; i++)
		r ^= ((b >> i) & 1) ? lin[k][i] : 0;
	return r;
}
static uint32_t lin_byte(uint32_t c, uint8_t b)
{
	return (c >> 8) ^ contrib((uint8_t) (c ^ b), 0);
}
static uint32_t lin_word(uint32_t c, uint64_t v)
{
	uint32_t r = 0;
	v ^= c;
	for (int i = 0; i < 8; i++)
		r ^= contrib((uint8_t) (v >> (8 * i)), 7 - i);
	return r;
}
static uint32_t lin_crc(uint32_t crc, const uint8_t *p, size_t n, size_t off)
{
	uint32_t c = ~crc;
	while (n > 0) {
		if ((off & 7) != 0 || n < 8) {
			c = lin_byte(c, *p);
			p++, off++, n--;
		} else {
			uint64_t v = 0;
			for (int i = 0; i < 8; i++)
				v |= (uint64_t) p[i] << (8 * i);
			c = lin_word(c, v);
			p += 8, off += 8, n -= 8;
		}
	}
	return ~c;
}

/* the instructions of the hardware variant */
uint32_t v_crc_u8(uint32_t c, uint8_t v)
{
	return lin_byte(c, v);
}
uint64_t v_crc_u64(uint64_t c, uint64_t v)
{
	return lin_word((uint32_t) c, v);
}

/* Everything symbolic: contents and initial value.  One length per query. */
void h_full(void)
{
	uint32_t crc = nd_u32();
	lin_init();
	sc_crc32_init();
	uint8_t *p = malloc(ALIGN + LEN);
	for (size_t i = 0; i < ALIGN + LEN; i++)
		p[i] = nd_u8();
	uint32_t r = sc_crc32(crc, p + ALIGN, LEN);
	CHECK(r == lin_crc(crc, p + ALIGN, LEN, ALIGN), "checksum of the bytes");
	REACH("checksum computed");
	free(p);
}

/* The linear form is the definition: for one byte directly; for eight because
 * the definition is linear and agrees for each byte among zeros. */
void h_lemma(void)
{
	uint32_t c = nd_u32(), d = nd_u32();
	uint8_t x = nd_u8(), y = nd_u8();
	lin_init();
	CHECK(lin_byte(c, x) == def_byte(c, x), "one byte");
	CHECK(def_byte(c ^ d, x ^ y) == (def_byte(c, x) ^ def_byte(d, y)), "linear");
	for (int k = 0; k < 8; k++) {
		uint32_t e = 0;
		for (int i = 0; i < 8; i++)
			e = def_byte(e, i == k ? x : 0);
		CHECK(lin_word(0, (uint64_t) x << (8 * k)) == e, "a byte among zeros");
		uint32_t f = k < 4 ? (uint32_t) x << (8 * k) : 0;
		e = f;
		for (int i = 0; i < 8; i++)
			e = def_byte(e, 0);
		CHECK(lin_word(f, 0) == e, "a byte of the old value");
	}
	REACH("lemma");
}
