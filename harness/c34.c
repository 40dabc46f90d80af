/* Error descriptions */
#include "vh.h"
#include <eml_common.h>
#include <eml_net_common.h>

/* lower case letters of the text only */
static int norm(const char *s, char *out, int max)
{
    int n = 0;
    for (int i = 0; s[i] != 0; i++) {
        char c = s[i];
        if (c >= 'A' && c <= 'Z') { c = (char)(c + 32); }
        if (c >= 'a' && c <= 'z') { VASSERT(n < max - 1, "description of sensible length"); out[n++] = c; }
    }
    out[n] = 0;
    return n;
}
static bool names(const char *s, const char *name)
{
    char text[48];
    const int n = norm(s, text, 48);
    int l = 0;
    while (name[l]) { l++; }
    for (int i = 0; i + l <= n; i++) {
        int j = 0;
        while (j < l && text[i + j] == name[j]) { j++; }
        if (j == l) { return true; }
    }
    return false;
}
void harness(void)
{
    VH_IN(int, code);
    const char *s = eml_error_str((EmlError)code);
    VASSERT(s != NULL, "there is a description");
#if MODE == 1
    VASSUME(code >= 0 && code < EmlErrors);
    VASSERT(eml_error_valid((EmlError)code), "valid code");
    static const char *const want[] = { [EmlOk] = "ok", [EmlSizeMismatch] = "sizemismatch", [EmlUnsupported] = "unsupported", [EmlUninitialized] = "uninitialized",
        [EmlPostconditionFailed] = "postconditionfailed", [EmlUnknownError] = "unknownerror" };
    VASSERT(sizeof(want) / sizeof(want[0]) == EmlErrors, "all codes have an expected name");
    VASSERT(names(s, want[code]), "description names its error");
    VH_IN(int, other); VASSUME(other >= 0 && other < EmlErrors && other != code);
    char a[48], b[48];
    const int na = norm(s, a, 48), nb = norm(eml_error_str((EmlError)other), b, 48);
    bool same = na == nb;
    for (int i = 0; i < 48 && i < na && i < nb; i++) { if (a[i] != b[i]) { same = false; } }
    VASSERT(!same, "own description");
    VH_REACH("valid");
#else
    VASSUME(code < 0 || code >= EmlErrors);
    VASSERT(!eml_error_valid((EmlError)code), "invalid code");
    VASSERT(names(s, "invaliderrorcode"), "invalid code text");
    VH_REACH("invalid");
#endif
}
