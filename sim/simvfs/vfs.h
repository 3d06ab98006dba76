// The published ABI of SQLite's VFS interface (sqlite3.h), version 1 methods only.
#ifndef SIMVFS_H
#define SIMVFS_H
#include <stdint.h>
typedef int64_t i64;
typedef struct io_methods io_methods;
typedef struct vfile { const io_methods *pMethods; i64 id; } vfile;
struct io_methods {
  int iVersion;
  int (*xClose)(vfile*);
  int (*xRead)(vfile*, void*, int iAmt, i64 iOfst);
  int (*xWrite)(vfile*, const void*, int iAmt, i64 iOfst);
  int (*xTruncate)(vfile*, i64 size);
  int (*xSync)(vfile*, int flags);
  int (*xFileSize)(vfile*, i64 *pSize);
  int (*xLock)(vfile*, int);
  int (*xUnlock)(vfile*, int);
  int (*xCheckReservedLock)(vfile*, int *pResOut);
  int (*xFileControl)(vfile*, int op, void *pArg);
  int (*xSectorSize)(vfile*);
  int (*xDeviceCharacteristics)(vfile*);
};
typedef struct vfs vfs;
struct vfs {
  int iVersion;
  int szOsFile;
  int mxPathname;
  vfs *pNext;
  const char *zName;
  void *pAppData;
  int (*xOpen)(vfs*, const char *zName, vfile*, int flags, int *pOutFlags);
  int (*xDelete)(vfs*, const char *zName, int syncDir);
  int (*xAccess)(vfs*, const char *zName, int flags, int *pResOut);
  int (*xFullPathname)(vfs*, const char *zName, int nOut, char *zOut);
  void *(*xDlOpen)(vfs*, const char *zFilename);
  void (*xDlError)(vfs*, int nByte, char *zErrMsg);
  void (*(*xDlSym)(vfs*, void*, const char *zSymbol))(void);
  void (*xDlClose)(vfs*, void*);
  int (*xRandomness)(vfs*, int nByte, char *zOut);
  int (*xSleep)(vfs*, int microseconds);
  int (*xCurrentTime)(vfs*, double*);
  int (*xGetLastError)(vfs*, int, char *);
};
int simvfs_register(void);
void simvfs_reseed(uint64_t);
#endif
