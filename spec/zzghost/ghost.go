// Package zzghost holds the ghost functions the specifications use
package zzghost

// XPush and XPop are the explanation events that open and close a node; XAccept records something on the current node
func XPush(kind string, ic, what interface{}) {}

// XPop closes the current node
func XPop(ic interface{}) {}

// XAccept records an event on the current node
func XAccept(kind string, ic, what, value interface{}) {}

// PushName enters a lookup of the given name: it panics when that name is being looked up already
func PushName(ic interface{}, name string) {}

// PopName leaves the lookup of the name last entered
func PopName(ic interface{}) {}
