package vsched

import "sync"

// RawMutex is a mutex that is no scheduling point: for code that runs under
// locks the scheduler does not know of (those of the standard library).
type RawMutex struct{ mu sync.Mutex }

func (m *RawMutex) Lock()   { m.mu.Lock() }
func (m *RawMutex) Unlock() { m.mu.Unlock() }
