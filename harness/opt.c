/* O01: option parsing against an independent reading of the argument */
#include "verif.h"
#include "sc_option.h"
#include "nochecks.h"

#ifndef N
#define N 5 /* argument bytes before its terminator */
#endif
#ifndef NN
#define NN 3 /* long name bytes */
#endif
#ifndef NO
#define NO 2 /* options in the table */
#endif

static bool name_matches(const char *s, size_t b, size_t e, const char *name)
{
	size_t i = 0;
	if (name == NULL)
		return false;
	for (; i < NN + 1 && name[i] != '\0'; i++)
		if (b + i >= e || s[b + i] != name[i])
			return false;
	return b + i == e;
}

void h_option(void)
{
	FOR_CASE(n, N + 1)
	{
		/* exact-size objects: any access behind a terminator is an error */
		char *s = malloc(n + 1), *name[NO], let[NO];
		bool has[NO];
		for (size_t i = 0; i < n; i++) {
			s[i] = (char) nd_u8();
			ASSUME(s[i] != '\0');
		}
		s[n] = '\0';
		for (int o = 0; o < NO; o++) {
			name[o] = malloc(NN + 1);
			size_t l = nd_range(0, NN);
			for (size_t i = 0; i < NN; i++) {
				name[o][i] = (char) nd_u8();
				ASSUME((name[o][i] == '\0') == (i >= l));
			}
			name[o][NN] = '\0';
			has[o] = nd_bool();
			let[o] = (char) nd_u8();
		}
		struct sc_option_item items[NO] = {
			{let[0], has[0] ? name[0] : NULL},
#if NO > 1
			{let[1], has[1] ? name[1] : NULL},
#endif
#if NO > 2
			{let[2], has[2] ? name[2] : NULL},
#endif
		};
		char *prog = (char *) "p";
		char *argv[3] = {prog, s, NULL};
		struct sc_option opt = {.options = items, .count = NO, .argv = argv};
		char *value = prog;

		/* expectation */
		char want = '?';
		size_t at = n, eq = n;
		bool found = false;
		for (size_t i = n; i-- > 0;)
			if (s[i] == '=' && i >= 2)
				eq = i;
		if (n >= 2 && s[0] == '-' && s[1] == '-') {
			for (int o = NO; o-- > 0;)
				if (name_matches(s, 2, eq, items[o].name)) {
					found = true;
					want = let[o];
				}
			at = eq < n ? eq + 1 : n;
		} else if (n >= 2 && s[0] == '-' && (n == 2 || s[2] == '=')) {
			for (int o = NO; o-- > 0;)
				if (let[o] == s[1]) {
					found = true;
					want = let[o];
				}
			at = n == 2 ? 2 : 3;
		}
		/* '-x text' inside one argument: a blank is taken as the end of the
		 * letter, too, and the value starts with it */
		bool open = n >= 3 && s[0] == '-' && s[1] != '-' && s[2] == ' ';

		char c = sc_option_at(&opt, 1, &value);

		if (open && value != NULL) {
			bool in = false;
			for (int o = 0; o < NO; o++)
				in = in || let[o] == s[1];
			CHECK(in && c == s[1] && value == s + 2, "blank behind the letter");
		} else {
			CHECK(c == want, "letter of the first matching option or '?'");
			CHECK(value == (found ? s + at : NULL), "value position");
		}
		REACH_IF(found && value > s && *value != '\0' && s[1] != '-', "letter with value");
		REACH_IF(found && s[0] == '-' && s[1] == '-' && *value != '\0' && n > 4, "name with value");
		REACH_IF(!found && n > 3 && s[0] == '-', "unknown");
	}
}
