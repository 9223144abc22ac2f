//go:build go1.23

package main

import "time"

func timeUntil(t time.Time) time.Duration { return time.Until(t) }

// addFrac is a deadline after a fraction of the time left.
func addFrac(d time.Duration, n int) time.Time { return time.Now().Add(d / time.Duration(n)) }
