// Package sess drives a real readline instance through its public API and records what it does.
package sess

import (
	"io"
	"sync"
	"syscall"
)

// Stdin is a scripted, cancellable standard input: each Read returns at most one queued chunk.
type Stdin struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      [][]byte
	eof    bool
	closed bool

	Reads     int // Read calls that returned data
	BytesRead int
	Idle      bool // a Read is blocked waiting for input

	// Intr, when set before the first Read, says whether a Read is interrupted by a signal.
	Intr        func() bool
	interrupted int
}

func NewStdin() *Stdin {
	s := &Stdin{}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *Stdin) Feed(chunks ...[]byte) {
	s.mu.Lock()
	for _, c := range chunks {
		if len(c) > 0 {
			s.q = append(s.q, append([]byte{}, c...))
		}
	}
	s.cond.Broadcast()
	s.mu.Unlock()
}

// EOF makes the input end once the queue is empty.
func (s *Stdin) EOF() {
	s.mu.Lock()
	s.eof = true
	s.cond.Broadcast()
	s.mu.Unlock()
}

func (s *Stdin) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		if s.closed {
			return 0, io.EOF
		}
		if len(s.q) > 0 {
			if s.Intr != nil && s.Intr() {
				s.interrupted++
				return 0, syscall.EINTR
			}
			c := s.q[0]
			n := copy(p, c)
			if n < len(c) {
				s.q[0] = c[n:]
			} else {
				s.q = s.q[1:]
			}
			s.Reads++
			s.BytesRead += n
			if s.Intr != nil && s.Intr() {
				s.interrupted++
				return n, syscall.EINTR
			}
			return n, nil
		}
		if s.eof {
			return 0, io.EOF
		}
		s.Idle = true
		s.cond.Broadcast()
		s.cond.Wait()
		s.Idle = false
	}
}

// WaitIdle blocks until everything fed has been read and a Read is waiting for more.
func (s *Stdin) WaitIdle() {
	s.mu.Lock()
	for !(s.Idle && len(s.q) == 0) && !s.closed {
		s.cond.Wait()
	}
	s.mu.Unlock()
}

// Count is how many bytes were read so far.
func (s *Stdin) Count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.BytesRead
}

// Interrupts is how many reads were interrupted so far.
func (s *Stdin) Interrupts() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.interrupted
}

func (s *Stdin) Pending() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, c := range s.q {
		n += len(c)
	}
	return n
}

func (s *Stdin) Close() error {
	s.mu.Lock()
	s.closed = true
	s.cond.Broadcast()
	s.mu.Unlock()
	return nil
}
