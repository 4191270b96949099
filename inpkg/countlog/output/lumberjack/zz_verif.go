package lumberjack

import (
	"os"
	"time"
)

// VerifUnit makes MaxSize count units of n bytes.
func VerifUnit(n int) { megabyte = n }

// VerifTime replaces the clock.
func VerifTime(now func() time.Time) { currentTime = now }

// VerifStat makes the logger's calls of stat fail when f says so.
func VerifStat(f func(name string) error) {
	os_Stat = func(name string) (os.FileInfo, error) {
		if err := f(name); err != nil {
			return nil, &os.PathError{Op: "stat", Path: name, Err: err}
		}
		return os.Stat(name)
	}
}
