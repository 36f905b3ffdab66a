// Trusted contracts of the standard library.

ghost sync.RWMutex.st int
// off: locking is switched off, the lock must not be touched
ghost sync.RWMutex.off bool

// st: 0 free, -1 write-locked, n>0 read-locked n times (by this goroutine).
func sync.RWMutex.Lock(m)
  requires [C22 notheld] m.st == 0
  requires [C22 on] !m.off
  modifies m.st
  ensures m.st == -1
  flags trusted
func sync.RWMutex.Unlock(m)
  requires [C22 held] m.st == -1
  modifies m.st
  ensures m.st == 0
  flags trusted
func sync.RWMutex.RLock(m)
  requires [C22 notheld] m.st == 0
  requires [C22 on] !m.off
  modifies m.st
  ensures m.st == 1
  flags trusted
func sync.RWMutex.RUnlock(m)
  requires [C22 held] m.st == 1
  modifies m.st
  ensures m.st == 0
  flags trusted

func errors.New(s) (err)
  ensures err != nil
  flags trusted
func fmt.Errorf(f, a) (err)
  ensures err != nil && !typeis(err, "ErrDelimiterNotFound") && !typeis(err, "ErrEmptyKeyName")
  flags trusted

func strings.ToLower(s) (r)
  ensures r == s.lower(s)
  flags trusted, pure
func strings.ToUpper(s) (r)
  ensures r == s.upper(s)
  flags trusted, pure
func strings.HasPrefix(s, p) (r)
  ensures r <==> s.prefix(s, p)
  flags trusted, pure
func strings.HasSuffix(s, p) (r)
  ensures r <==> s.suffix(s, p)
  flags trusted, pure
func strings.Contains(s, p) (r)
  ensures r <==> s.contains(s, p)
  flags trusted, pure
func strings.Index(s, p) (r)
  ensures r == s.idx(s, p)
  flags trusted, pure
func strings.LastIndex(s, p) (r)
  ensures r == s.lidx(s, p)
  flags trusted, pure
func strings.IndexAny(s, p) (r)
  ensures r == s.idxany(s, p)
  flags trusted, pure
func strings.TrimSpace(s) (r)
  ensures r == s.trim(s)
  flags trusted, pure
