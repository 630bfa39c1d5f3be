package ref

import (
	"fmt"
	"reflect"
	"sync"
)

// Remembered results, for checks that repeat one calculation very often.
var (
	memoMu sync.Mutex
	memoM  = map[string]interface{}{}
	// Memo switches the remembering on.
	Memo bool
)

func memo[T any](f func() T, key ...interface{}) T {
	k := fmt.Sprint(key...)
	memoMu.Lock()
	v, ok := memoM[k]
	memoMu.Unlock()
	if ok {
		return v.(T)
	}
	r := f()
	memoMu.Lock()
	if len(memoM) > 1000 {
		memoM = map[string]interface{}{}
	}
	memoM[k] = r
	memoMu.Unlock()
	return r
}

func hashID(h Hash512) uintptr { return reflect.ValueOf(h).Pointer() }
