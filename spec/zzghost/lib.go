package zzghost

import (
	"regexp"
	"strings"
)

// Matches is the number of matches of a pattern in a text
func Matches(re *regexp.Regexp, src string) int { return 0 }

// Match is one of the matches, in their order
func Match(re *regexp.Regexp, src string, i int) string { return `` }

// Gap is the text before a match, and after the last one
func Gap(re *regexp.Regexp, src string, i int) string { return `` }

//@ model (*regexp.Regexp).ReplaceAllStringFunc
func modelReplaceAllStringFunc(re *regexp.Regexp, src string, repl func(string) string) string {
	n := Matches(re, src)
	s := ``
	for i := 0; i < n; i++ {
		s += Gap(re, src, i) + repl(Match(re, src, i))
	}
	return s + Gap(re, src, n)
}

//@ model github.com/lyraproj/dgo/util.ContainsString
func modelContainsString(a []string, s string) bool {
	for i := 0; i < len(a); i++ {
		if a[i] == s {
			return true
		}
	}
	return false
}

//@ model strings.TrimPrefix
func modelTrimPrefix(s, prefix string) string {
	if strings.HasPrefix(s, prefix) {
		return s[len(prefix):]
	}
	return s
}

//@ model strings.TrimSuffix
func modelTrimSuffix(s, suffix string) string {
	if strings.HasSuffix(s, suffix) {
		return s[:len(s)-len(suffix)]
	}
	return s
}

//@ model strings.CutPrefix
func modelCutPrefix(s, prefix string) (string, bool) {
	if strings.HasPrefix(s, prefix) {
		return s[len(prefix):], true
	}
	return s, false
}

//@ model strings.CutSuffix
func modelCutSuffix(s, suffix string) (string, bool) {
	if strings.HasSuffix(s, suffix) {
		return s[:len(s)-len(suffix)], true
	}
	return s, false
}

//@ model strings.Cut
func modelCut(s, sep string) (string, string, bool) {
	if i := strings.Index(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, ``, false
}

// SplitN is strings.SplitN for other limits than two
func SplitN(s, sep string, n int) []string { return nil }

//@ model strings.SplitN
func modelSplitN(s, sep string, n int) []string {
	if n != 2 || sep == `` {
		return SplitN(s, sep, n)
	}
	if i := strings.Index(s, sep); i >= 0 {
		return []string{s[:i], s[i+len(sep):]}
	}
	return []string{s}
}

//@ model strings.ContainsRune
func modelContainsRune(s string, r rune) bool { return strings.IndexRune(s, r) >= 0 }
