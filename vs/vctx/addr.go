package vctx

import "unsafe"

func chanAddr(c chan struct{}) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
