#include <string.h>
#include <stdio.h>
#include "vfs.h"
#include "_cgo_export.h"

extern int sqlite3_vfs_register(void *, int) __attribute__((weak));
extern void sqlite3_randomness(int, void *) __attribute__((weak));

static uint64_t rnd = 1;

static int xClose(vfile *f) { return goVfsClose(f->id); }
static int xRead(vfile *f, void *b, int n, i64 o) { return goVfsRead(f->id, b, n, o); }
static int xWrite(vfile *f, const void *b, int n, i64 o) { return goVfsWrite(f->id, (void *)b, n, o); }
static int xTruncate(vfile *f, i64 s) { return goVfsTruncate(f->id, s); }
static int xSync(vfile *f, int fl) { return goVfsSync(f->id); }
static int xFileSize(vfile *f, i64 *p) { return goVfsSize(f->id, p); }
static int xLock(vfile *f, int l) { return goVfsLock(f->id, l); }
static int xUnlock(vfile *f, int l) { return goVfsUnlock(f->id, l); }
static int xCheck(vfile *f, int *r) { return goVfsCheckReserved(f->id, r); }
static int xControl(vfile *f, int op, void *a) { return 12; /* SQLITE_NOTFOUND */ }
static int xSector(vfile *f) { return 512; }
static int xChar(vfile *f) { return 0; }

static const io_methods methods = {1, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xUnlock, xCheck,
                                   xControl, xSector, xChar};

static int xOpen(vfs *v, const char *z, vfile *f, int flags, int *out) {
  f->pMethods = 0;
  i64 id = 0;
  int rc = goVfsOpen((char *)z, flags, &id);
  if (rc != 0) return rc;
  f->id = id;
  f->pMethods = &methods;
  if (out) *out = flags;
  return 0;
}
static int xDelete(vfs *v, const char *z, int s) { return goVfsDelete((char *)z); }
static int xAccess(vfs *v, const char *z, int fl, int *r) { return goVfsAccess((char *)z, r); }
static int xFull(vfs *v, const char *z, int n, char *o) {
  if (z[0] == '/') snprintf(o, n, "%s", z);
  else snprintf(o, n, "/w/%s", z);
  return 0;
}
static void *xDlOpen(vfs *v, const char *z) { return 0; }
static void xDlError(vfs *v, int n, char *z) { if (n > 0) z[0] = 0; }
static void (*xDlSym(vfs *v, void *h, const char *z))(void) { return 0; }
static void xDlClose(vfs *v, void *h) {}
static int xRandom(vfs *v, int n, char *z) {
  for (int i = 0; i < n; i++) {
    rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
    z[i] = (char)(rnd >> 32);
  }
  return n;
}
static int xSleep(vfs *v, int us) { return us; }
static int xTime(vfs *v, double *t) { *t = 2451545.0; return 0; }
static int xLast(vfs *v, int n, char *z) { return 0; }

static vfs the_vfs = {1, sizeof(vfile), 512, 0, "sim", 0, xOpen, xDelete, xAccess, xFull, xDlOpen, xDlError, xDlSym,
                      xDlClose, xRandom, xSleep, xTime, xLast};

int simvfs_register(void) {
  if (!sqlite3_vfs_register) return -1;
  return sqlite3_vfs_register(&the_vfs, 1);
}

void simvfs_reseed(uint64_t s) {
  rnd = s | 1;
  if (sqlite3_randomness) sqlite3_randomness(0, 0);
}
