// The file's lock: what it protects and who has to hold it.

// C22: every obligation that speaks about the state of the lock
tag C22 lock.st, RWMutex.st, lock.off

// C23: with locking on, the operations with flag guarded read the tables only
// with the lock held, and write them only with it held for writing
guard File o
  read [C23] fresh(o) || !o.BlockMode || o.lock.st != 0
  write [C23] fresh(o) || !o.BlockMode || o.lock.st == -1
  fields sections, sectionList, sectionIndexes
guard Section o
  read [C23] fresh(o) || !o.f.BlockMode || o.f.lock.st != 0
  write [C23] fresh(o) || !o.f.BlockMode || o.f.lock.st == -1
  fields keys, keyList, keysHash
