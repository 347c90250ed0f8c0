/* The output file: fields, section table, and byte-for-byte content. */
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#ifndef OUTMAX
#define OUTMAX 1024
#endif
static unsigned char out[OUTMAX];
static int nout, nopen, nclose, badstream;
static char *outname;
static int vp_file;
static void *vp_fopen(const char *name, const char *mode)
{
    nopen++;
    outname = (char *) name;
    if (mode[0] != 'w')
        badstream = 1;
    return &vp_file;
}
static int vp_fputc(int c, void *f)
{
    if (f != &vp_file || nopen != 1 || nclose)
        badstream = 1;
    if (nout < OUTMAX)
        out[nout] = (unsigned char) c;
    nout++;
    return c & 255;
}
static int vp_fclose(void *f)
{
    if (f != &vp_file)
        badstream = 1;
    nclose++;
    return 0;
}
#define fopen vp_fopen_
#define fputc vp_fputc_
#define fclose vp_fclose_
static FILE *vp_fopen_(const char *n, const char *m) { return (FILE *) vp_fopen(n, m); }
static int vp_fputc_(int c, FILE *f) { return vp_fputc(c, f); }
static int vp_fclose_(FILE *f) { return vp_fclose(f); }
#include "vp_tu.h"

#define CODESTART 0x10054
#ifndef CSIZE
#define CSIZE 4
#define DSIZE 4
#endif
static char header[1024], section[2048], symtab[64], strtab[64], code[64], data[64];
static vu32 word(char *b, int at)
{
    return (vu32) (vu8) b[at] | (vu32) (vu8) b[at + 1] << 8 | (vu32) (vu8) b[at + 2] << 16 | (vu32) (vu8) b[at + 3] << 24;
}
static vu32 half(char *b, int at) { return (vu32) (vu8) b[at] | (vu32) (vu8) b[at + 1] << 8; }
static void setup(void)
{
    elf_header = header;
    elf_section = section;
    elf_symtab = symtab;
    elf_strtab = strtab;
    elf_code = code;
    elf_data = data;
    elf_header_idx = elf_section_index = elf_symtab_index = elf_strtab_index = elf_symbol_index = 0;
    elf_code_start = CODESTART;
}
static int name_is(int at, char *s)
{
    int i;
    for (i = 0; i < 12; i++) {
        if (section[at + i] != s[i])
            return 0;
        if (!s[i])
            return 1;
    }
    return 0;
}
/* every field of the ELF header, program header and section table, for every
 * size of code and data */
void ob_fields(void)
{
    vu32 c, d, sh, off, end, shstr, base;
    int i;
    setup();
    c = (vu32) IN_RANGE(0, MAX_CODE / 4) * 4;
    d = (vu32) IN_RANGE(0, MAX_DATA);
    elf_code_idx = (int) c;
    elf_data_idx = (int) d;
    elf_align();
    ENSURE((vu32) elf_data_idx - d < 4 && (elf_data_idx & 3) == 0 && elf_code_idx == (int) c, "data-size-rounded-up-to-words");
    d = (vu32) elf_data_idx;
    elf_generate_header();
    elf_generate_sections();
    REACH("end");
    ENSURE(elf_header_idx == 0x54 && elf_header_len == 0x54, "header-size");
    ENSURE(word(header, 0) == 0x464c457f && header[4] == 1 && header[5] == 1 && header[6] == 1 && header[7] == 0, "32-bit-little-endian-ELF");
    ENSURE(half(header, 16) == 2 && half(header, 18) == ELF_MACHINE && word(header, 20) == 1, "executable-for-the-target-machine");
    ENSURE(word(header, 24) == CODESTART, "entry-point-is-the-first-code-byte");
    ENSURE(word(header, 28) == 0x34 && half(header, 42) == 0x20 && half(header, 44) == 1 && half(header, 40) == 0x34, "program-header-where-announced");
    ENSURE(word(header, 36) == ELF_FLAGS, "ABI-flags");
    base = 0x34;
    ENSURE(word(header, base) == 1 && (word(header, base + 24) & 7) == 7, "one-loadable-segment-rwx");
    ENSURE(word(header, base + 4) == 0x54 && word(header, base + 8) == CODESTART && word(header, base + 12) == CODESTART, "segment-maps-the-first-code-byte-to-the-code-address");
    ENSURE(word(header, base + 16) == c + d && word(header, base + 20) == c + d, "segment-covers-code-and-data-exactly");
    ENSURE(((CODESTART - 0x54) & 0xfff) == 0, "segment-page-congruent");
    /* section table */
    sh = word(header, 32);
    end = 0x54 + c + d + (vu32) elf_section_index;
    ENSURE(half(header, 46) == 40 && half(header, 48) == 6 && half(header, 50) == 5, "section-table-shape");
    ENSURE(sh + 6 * 40 == end, "section-table-ends-the-file");
    off = (vu32) elf_section_index - 240;
#define SH(i, f) word(section, (int) off + (i) *40 + (f) *4)
    for (i = 0; i < 10; i++)
        ENSURE(SH(0, i) == 0, "null-section");
    ENSURE(SH(5, 1) == 3 && SH(5, 4) + SH(5, 5) == sh && SH(5, 5) <= off, "section-names-before-the-table");
    REQUIRE(SH(5, 5) <= off);
    shstr = off - SH(5, 5);
    for (i = 1; i < 6; i++)
        ENSURE(SH(i, 0) < SH(5, 5), "section-name-inside-the-name-table");
    for (i = 1; i < 6; i++)
        REQUIRE(SH(i, 0) < 64);
    ENSURE(name_is((int) (shstr + SH(1, 0)), ".text") && name_is((int) (shstr + SH(2, 0)), ".data") && name_is((int) (shstr + SH(3, 0)), ".symtab") &&
               name_is((int) (shstr + SH(4, 0)), ".strtab") && name_is((int) (shstr + SH(5, 0)), ".shstrtab"), "section-names");
    ENSURE(SH(1, 1) == 1 && SH(1, 3) == CODESTART && SH(1, 4) == 0x54 && SH(1, 5) == c, "text-section-is-the-code");
    ENSURE(SH(2, 1) == 1 && SH(2, 3) == CODESTART + c && SH(2, 4) == 0x54 + c && SH(2, 5) == d, "data-section-is-the-data");
    ENSURE(SH(3, 1) == 2 && SH(3, 4) == 0x54 + c + d && SH(3, 5) == 0 && SH(3, 6) == 4 && SH(3, 9) == 16, "symbol-table-empty-in-place");
    ENSURE(SH(4, 1) == 3 && SH(4, 4) == SH(3, 4) + SH(3, 5) && SH(4, 5) == 0 && SH(4, 4) + SH(4, 5) == SH(5, 4), "string-table-in-place");
}
/* the file written is header, code, data, sections, byte for byte */
void ob_file(void)
{
    int i, ok, n;
    setup();
    for (i = 0; i < 20; i++)
        code[i] = (char) IN();
    for (i = 0; i < 16; i++)
        data[i] = (char) IN();
    elf_code_idx = CSIZE;
    elf_data_idx = DSIZE;
    nout = nopen = nclose = badstream = 0;
    elf_generate(CSIZE ? "x" : NULL);
    REACH("end");
    ENSURE(nopen == 1 && nclose == 1 && !badstream, "one-file-opened-written-and-closed");
    ENSURE(outname != NULL && (CSIZE ? outname[0] == 'x' && !outname[1] : outname[0] == 'a' && outname[1] == '.'), "output-name");
    n = elf_data_idx;
    ENSURE(elf_code_idx == CSIZE && n >= DSIZE && n <= DSIZE + 3 && (n & 3) == 0, "sizes");
    ENSURE(nout == 0x54 + CSIZE + n + elf_section_index && nout < OUTMAX, "file-size");
    for (ok = 1, i = 0; i < 0x54; i++)
        ok &= out[i] == (vu8) header[i];
    ENSURE(ok, "header-bytes");
    for (ok = 1, i = 0; i < CSIZE; i++)
        ok &= out[0x54 + i] == (vu8) code[i];
    ENSURE(ok, "code-bytes");
    for (ok = 1, i = 0; i < DSIZE; i++)
        ok &= out[0x54 + CSIZE + i] == (vu8) data[i];
    ENSURE(ok, "data-bytes");
    for (ok = 1, i = 0; i < elf_section_index; i++)
        ok &= out[0x54 + CSIZE + n + i] == (vu8) section[i];
    ENSURE(ok, "section-bytes");
}
/* little-endian emission of any value at any place; nothing else written */
void ob_write_int(void)
{
    vu32 v = (vu32) IN();
    int at, k, i;
    vu8 old;
    setup();
    for (i = 0; i < 64; i++)
        code[i] = (char) IN();
    at = IN_RANGE(0, 60);
    k = IN_RANGE(0, 63);
    old = (vu8) code[k];
    elf_code_idx = at;
    elf_write_code_int((int) v);
    REACH("end");
    ENSURE(elf_code_idx == at + 4, "advances-by-four");
    ENSURE(k >= at && k < at + 4 ? (vu8) code[k] == (vu8) (v >> 8 * (k - at)) : (vu8) code[k] == old, "little-endian-and-nothing-else");
}
/* data strings are appended unchanged */
void ob_write_data(void)
{
    char s[12];
    int at, n, k, i;
    vu8 old;
    setup();
    for (i = 0; i < 12; i++)
        s[i] = (char) IN();
    for (i = 0; i < 64; i++)
        data[i] = (char) IN();
    n = IN_RANGE(0, 12);
    at = IN_RANGE(0, 52);
    k = IN_RANGE(0, 63);
    old = (vu8) data[k];
    elf_data_idx = at;
    elf_write_data_str(s, n);
    REACH("end");
    ENSURE(elf_data_idx == at + n, "advances-by-the-length");
    ENSURE(k >= at && k < at + n ? data[k] == s[k - at] : (vu8) data[k] == old, "bytes-copied-and-nothing-else");
}
