package lib

import (
	"time"

	"github.com/dgraph-io/badger/v4"
)

// MemDB opens an in-memory badger.
func MemDB() *badger.DB {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).
		WithMemTableSize(8 << 20).WithNumCompactors(2).WithBlockCacheSize(1 << 20).WithMetricsEnabled(false))
	if err != nil {
		panic(err)
	}
	return db
}

// DirDB opens a small badger database in dir.
func DirDB(dir string) (*badger.DB, error) {
	return badger.Open(badger.DefaultOptions(dir).WithLogger(nil).
		WithMemTableSize(4 << 20).WithValueThreshold(64 << 10).WithValueLogFileSize(8 << 20).WithNumCompactors(2).
		WithBlockCacheSize(1 << 20).WithMetricsEnabled(false))
}

// Day0 is the reference day of the generated histories.
var Day0 = time.Date(2024, 4, 3, 0, 0, 0, 0, time.UTC)
