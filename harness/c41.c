/* Stream functions on FILE objects. The functions of the C library that they may use are replaced by ones over a file in memory, of SN bytes, that
   transfer any part of what is asked for and whose seeks fail at will. */
#include "vh.h"
#include <stdio.h>
#include <limits.h>
#include <string.h>
#ifndef SN
#define SN 4
#endif
#ifndef CAP
#define CAP (SN + 8)
#endif
typedef struct { uint8_t *bytes; size_t length, pos, capacity; bool eof, error; int calls; } VhFile;
static size_t moved; static bool seek_failed, last_failed; static bool flushed;
static size_t part(size_t n)
{
#ifdef FULL
    return n;
#else
    VH_IN(uint8_t, k);
    return k < n ? k : n;
#endif
}
static size_t vh_fread(void *p, size_t size, size_t count, FILE *f_)
{
    VhFile *f = (VhFile *)f_;
    const size_t left = f->pos < f->length ? f->length - f->pos : 0;
    const size_t want = size * count, n = part(want < left ? want : left);
    for (size_t i = 0; i < n; i++) { ((uint8_t *)p)[i] = f->bytes[f->pos + i]; }
    f->pos += n; moved += n; f->calls++;
    if (n < want) { f->eof = true; }
    return size ? n / size : 0;
}
static size_t vh_fwrite(const void *p, size_t size, size_t count, FILE *f_)
{
    VhFile *f = (VhFile *)f_;
    const size_t want = size * count, n = part(want);
    for (size_t i = 0; i < n && f->pos + i < f->capacity; i++) { f->bytes[f->pos + i] = ((const uint8_t *)p)[i]; }
    f->pos += n; moved += n; f->calls++;
    if (f->pos > f->length) { f->length = f->pos; }
    if (n < want) { f->error = true; }
    return size ? n / size : 0;
}
static int vh_fgetc(FILE *f) { uint8_t c = 0; return vh_fread(&c, 1, 1, f) == 1 ? c : EOF; }
static int vh_fputc(int c, FILE *f) { const uint8_t b = (uint8_t)c; return vh_fwrite(&b, 1, 1, f) == 1 ? b : EOF; }
static long vh_ftell(FILE *f) { return (long)((VhFile *)f)->pos; }
static int vh_fseek(FILE *f_, long at, int whence)
{
    VhFile *f = (VhFile *)f_;
#ifndef FULL
    VH_IN(int8_t, status);
    if (status != 0) { seek_failed = last_failed = true; return status; }
#endif
    const long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)f->pos : (long)f->length;
    if (base + at < 0) { seek_failed = last_failed = true; return -1; }
    f->pos = (size_t)(base + at); f->eof = false; f->calls++; last_failed = false;
    return 0;
}
static int vh_fflush(FILE *f) { (void)f; flushed = true; return 0; }
#define fread vh_fread
#define fwrite vh_fwrite
#undef fgetc
#undef getc
#undef fputc
#undef putc
#define fgetc vh_fgetc
#define getc vh_fgetc
#define fputc vh_fputc
#define putc vh_fputc
#define fseek vh_fseek
#define fseeko vh_fseek
#define ftell vh_ftell
#define ftello vh_ftell
#define rewind(f) ((void)vh_fseek(f, 0, SEEK_SET))
#define fflush vh_fflush
#define feof(f) (((VhFile *)(f))->eof)
#define ferror(f) (((VhFile *)(f))->error)
#define clearerr(f) ((void)(((VhFile *)(f))->eof = ((VhFile *)(f))->error = false))
#include <eml_fileio.h>
#ifdef CSV
#include <eml_csv.h>
#endif

static VhFile file(void)
{
    VhFile f; f.bytes = (uint8_t *)malloc(CAP); f.length = SN; f.pos = 0; f.capacity = CAP; f.eof = f.error = false; f.calls = 0;
    for (size_t i = 0; i < CAP; i++) {
#ifdef LONG
        f.bytes[i] = (uint8_t)(i * 7);
#else
        VH_IN(uint8_t, b); f.bytes[i] = b;
#endif
    }
    return f;
}

void harness(void)
{
    VhFile f = file();
    uint8_t was[CAP];
    for (size_t i = 0; i < CAP; i++) { was[i] = f.bytes[i]; }
#if OP == 1 || OP == 2
    VH_IN(uint16_t, start); VH_IN(uint32_t, size);
#ifdef LONG
    VASSUME(start == 3 && size == COUNT);
#else
    VASSUME(start <= SN); VASSUME(size <= COUNT);
#endif
    f.pos = start;
    VH_BUFFER(uint8_t, buffer, COUNT + 1);
    uint8_t old[COUNT + 1];
    for (int i = 0; i <= COUNT; i++) {
#ifdef LONG
        buffer[i] = (uint8_t)(i * 5 + 1);
#else
        VH_IN(uint8_t, x); buffer[i] = x;
#endif
        old[i] = buffer[i];
    }
#endif
#if OP == 1
    const int got = eml_fileio_read(&f, buffer, size);
    VASSERT(got >= 0 && (size_t)got == moved, "read returns the number of bytes read");
    VASSERT((size_t)got <= size, "not more than asked for");
    VASSERT(f.pos == start + moved, "position after what was read");
#ifdef FULL
    VASSERT((size_t)got == (size < SN - start ? size : SN - start), "everything there is");
#endif
    for (size_t i = 0; i <= COUNT; i++) { VASSERT(buffer[i] == (i < moved ? was[start + i] : old[i]), "the bytes of the file, and nothing else"); }
    for (size_t i = 0; i < CAP; i++) { VASSERT(f.bytes[i] == was[i], "the file is not changed"); }
    VH_REACH("read");
#elif OP == 2
    const int got = eml_fileio_write(&f, buffer, size);
    VASSERT(got >= 0 && (size_t)got == moved, "write returns the number of bytes written");
    VASSERT((size_t)got <= size, "not more than asked for");
    VASSERT(f.pos == start + moved, "position after what was written");
#ifdef FULL
    VASSERT((size_t)got == size, "everything");
#endif
    for (size_t i = 0; i < CAP; i++) { VASSERT(f.bytes[i] == (i >= start && i < start + moved ? old[i - start] : was[i]), "the bytes given, in their place"); }
    for (size_t i = 0; i <= COUNT; i++) { VASSERT(buffer[i] == old[i], "the buffer is not changed"); }
    VH_REACH("written");
#elif OP == 3
    VH_IN(uint8_t, start);
    f.pos = start;
    VH_IN(size_t, position);
    VASSUME(position <= LONG_MAX);
    const int status = eml_fileio_seek(&f, position);
    if (status == 0) { VASSERT(!last_failed, "zero only if the seek worked"); } else { VASSERT(seek_failed, "nonzero only if a seek failed"); }
    if (status == 0) { VASSERT(f.pos == position, "from the start of the file"); VH_REACH("moved"); } else { VH_REACH("failed"); }
    for (size_t i = 0; i < CAP; i++) { VASSERT(f.bytes[i] == was[i], "the file is not changed"); }
#elif OP == 4
    /* bytes written are read back from where they were written */
    VH_BUFFER(uint8_t, buffer, COUNT); uint8_t back[COUNT + 1];
    for (int i = 0; i < COUNT; i++) { VH_IN(uint8_t, x); buffer[i] = x; back[i] = 0; }
    VH_IN(uint8_t, at); VASSUME(at + COUNT <= CAP);
    VASSERT(eml_fileio_seek(&f, at) == 0, "seek");
    VASSERT(eml_fileio_write(&f, buffer, COUNT) == COUNT, "everything is written");
    VASSERT(eml_fileio_seek(&f, at) == 0, "seek");
    VASSERT(eml_fileio_read(&f, back, COUNT) == COUNT, "everything is read");
    for (int i = 0; i < COUNT; i++) { VASSERT(back[i] == buffer[i], "what was written"); }
    VH_REACH("back");
#endif
}
