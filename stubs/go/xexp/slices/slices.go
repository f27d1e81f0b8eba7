// Package slices stands in for golang.org/x/exp/slices.
package slices

import (
	"cmp"
	"slices"
)

func Clone[S ~[]E, E any](s S) S                            { return slices.Clone(s) }
func Contains[S ~[]E, E comparable](s S, v E) bool          { return slices.Contains(s, v) }
func ContainsFunc[S ~[]E, E any](s S, f func(E) bool) bool  { return slices.ContainsFunc(s, f) }
func Equal[S ~[]E, E comparable](a, b S) bool               { return slices.Equal(a, b) }
func EqualFunc[S1 ~[]E1, S2 ~[]E2, E1, E2 any](a S1, b S2, f func(E1, E2) bool) bool { return slices.EqualFunc(a, b, f) }
func Index[S ~[]E, E comparable](s S, v E) int              { return slices.Index(s, v) }
func IndexFunc[S ~[]E, E any](s S, f func(E) bool) int      { return slices.IndexFunc(s, f) }
func Reverse[S ~[]E, E any](s S)                            { slices.Reverse(s) }
func Sort[S ~[]E, E cmp.Ordered](s S)                       { slices.Sort(s) }
func SortFunc[S ~[]E, E any](s S, f func(a, b E) int)       { slices.SortFunc(s, f) }
func Insert[S ~[]E, E any](s S, i int, v ...E) S            { return slices.Insert(s, i, v...) }
func Delete[S ~[]E, E any](s S, i, j int) S                 { return slices.Delete(s, i, j) }
