package main

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// memConn is a connection whose other side is played by the harness, which
// decides how the bytes arrive.
type memConn struct {
	mu       sync.Mutex
	changed  *sync.Cond
	segs     [][]byte // What a Read returns at most at once
	end      error    // What comes after the data, nil if nothing yet
	withLast bool     // The error comes together with the last data
	deadline time.Time
	past     bool // The deadline was over when it was set
	timer    *time.Timer
	closed   bool
	out      []byte // What was written
	writes   int
	wrote    []wrote // When it was written
	writeErr error
	remote   net.Addr
	reading  int  // Reads that are waiting
	limited  bool // Only room more bytes are taken
	room     int
	wdead    time.Time // The deadline of writes
	wtimer   *time.Timer
	waits    int  // How often a Write waited
	writing  bool // One Write at a time, they do not mix
}

// wrote is a Write.
type wrote struct {
	at time.Time
	n  int
}

func newMemConn(port int) *memConn {
	m := &memConn{remote: &net.TCPAddr{IP: net.IPv4(10, 9, byte(port>>8), byte(port)), Port: 1 + port%65535}}
	m.changed = sync.NewCond(&m.mu)
	return m
}

// push makes data arrive, as segments of the given sizes, and the rest as one.
func (m *memConn) push(data []byte, sizes ...int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	data = append([]byte(nil), data...)
	for _, n := range sizes {
		if n <= 0 || n >= len(data) {
			continue
		}
		m.segs = append(m.segs, data[:n:n])
		data = data[n:]
	}
	if len(data) > 0 {
		m.segs = append(m.segs, data)
	}
	m.changed.Broadcast()
}

// finish makes the stream end with an error (io.EOF if the peer closes).
func (m *memConn) finish(e error, withLast bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.end, m.withLast = e, withLast
	if e != io.EOF {
		m.writeErr = e
	}
	m.changed.Broadcast()
}

func (m *memConn) Read(b []byte) (int, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for {
		if m.closed {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		}
		if m.past {
			return 0, os.ErrDeadlineExceeded
		}
		if len(m.segs) > 0 {
			n := copy(b, m.segs[0])
			m.segs[0] = m.segs[0][n:]
			if len(m.segs[0]) == 0 {
				m.segs = m.segs[1:]
			}
			if len(m.segs) == 0 && m.end != nil && m.withLast {
				return n, m.end
			}
			return n, nil
		}
		if m.end != nil {
			return 0, m.end
		}
		if !m.deadline.IsZero() && !time.Now().Before(m.deadline) {
			return 0, os.ErrDeadlineExceeded
		}
		m.reading++
		m.changed.Broadcast()
		m.changed.Wait()
		m.reading--
	}
}

func (m *memConn) Write(b []byte) (int, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for m.writing {
		m.changed.Wait()
	}
	m.writing = true
	defer func() {
		m.writing = false
		m.changed.Broadcast()
	}()
	sent := 0
	for {
		if m.closed {
			return sent, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
		}
		if m.writeErr != nil {
			return sent, m.writeErr
		}
		if !m.wdead.IsZero() && !time.Now().Before(m.wdead) {
			return sent, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		n := len(b) - sent
		if m.limited {
			n = min(n, m.room)
			m.room -= n
		}
		if n > 0 || len(b) == 0 {
			m.out = append(m.out, b[sent:sent+n]...)
			m.wrote = append(m.wrote, wrote{time.Now(), n})
			sent += n
			m.changed.Broadcast()
		}
		if sent == len(b) {
			m.writes++
			return sent, nil
		}
		m.waits++
		m.changed.Wait()
	}
}

// lastWrote is when the peer took something for the last time.
func (m *memConn) lastWrote() time.Time {
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(m.wrote) == 0 {
		return time.Time{}
	}
	return m.wrote[len(m.wrote)-1].at
}

// take lets the peer take n more bytes, and no others. All if n is negative.
func (m *memConn) take(n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.limited, m.room = n >= 0, n
	m.changed.Broadcast()
}

func (m *memConn) Close() error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.closed {
		return net.ErrClosed
	}
	m.closed = true
	m.changed.Broadcast()
	return nil
}

func (m *memConn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 60666} }
func (m *memConn) RemoteAddr() net.Addr { return m.remote }

func (m *memConn) SetDeadline(t time.Time) error {
	if e := m.SetReadDeadline(t); e != nil {
		return e
	}
	return m.SetWriteDeadline(t)
}

func (m *memConn) SetReadDeadline(t time.Time) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.closed {
		return net.ErrClosed
	}
	m.deadline = t
	m.past = !t.IsZero() && !time.Now().Before(t)
	if m.timer != nil {
		m.timer.Stop()
		m.timer = nil
	}
	if !t.IsZero() && !m.past {
		m.timer = time.AfterFunc(time.Until(t)+time.Millisecond, func() {
			m.mu.Lock()
			m.changed.Broadcast()
			m.mu.Unlock()
		})
	}
	m.changed.Broadcast()
	return nil
}

func (m *memConn) SetWriteDeadline(t time.Time) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.closed {
		return net.ErrClosed
	}
	m.wdead = t
	if m.wtimer != nil {
		m.wtimer.Stop()
		m.wtimer = nil
	}
	if !t.IsZero() && time.Now().Before(t) {
		m.wtimer = time.AfterFunc(time.Until(t), func() {
			m.mu.Lock()
			m.changed.Broadcast()
			m.mu.Unlock()
		})
	}
	m.changed.Broadcast()
	return nil
}

// wait waits until cond (called with the lock held) is true, or the time is up.
func (m *memConn) wait(limit time.Duration, cond func() bool) bool {
	end := time.Now().Add(limit)
	t := time.AfterFunc(limit, func() {
		m.mu.Lock()
		m.changed.Broadcast()
		m.mu.Unlock()
	})
	defer t.Stop()
	m.mu.Lock()
	defer m.mu.Unlock()
	for !cond() {
		if !time.Now().Before(end) {
			return false
		}
		m.changed.Wait()
	}
	return true
}

func (m *memConn) written() []byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]byte(nil), m.out...)
}

func (m *memConn) isClosed() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.closed
}

// stop ends the timer, after the connection was used.
func (m *memConn) stop() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.timer != nil {
		m.timer.Stop()
	}
}

var errReset = &net.OpError{Op: "read", Net: "tcp", Err: errors.New("connection reset by peer")}
