package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"net"
	"os"
	"syscall"

	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/xstring"
	"github.com/chenquan/go-pkg/xsync"
)

// Errors that code is tempted to treat in a special way. The library has no
// reason to.

// yesErr claims to be every other error.
type yesErr struct{ s string }

func (e *yesErr) Error() string       { return e.s }
func (e *yesErr) Is(error) bool       { return true }
func (e *yesErr) Timeout() bool       { return true }
func (e *yesErr) Temporary() bool     { return true }
func (e *yesErr) As(interface{}) bool { return false }
func (e *yesErr) Unwrap() error       { return nil }
func (e *yesErr) Canceled() bool      { return true }
func (e *yesErr) NotFound() bool      { return true }
func (e *yesErr) RetryAfter() int     { return 0 }

var knownErrs = []error{
	io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortWrite, io.ErrShortBuffer,
	context.Canceled, context.DeadlineExceeded,
	os.ErrClosed, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrInvalid, os.ErrDeadlineExceeded, os.ErrProcessDone,
	net.ErrClosed, net.ErrWriteToConnected, errors.ErrUnsupported, fs.SkipDir, fs.SkipAll,
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ECONNRESET, syscall.Errno(0),
	xsync.ErrResourceManagerClosed, xbinary.ErrInvalidLength, xstream.ErrNoElement, xstring.ErrDecodeChar,
	&fs.PathError{Op: "close", Path: "x", Err: os.ErrClosed},
	&net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed},
	&net.DNSError{Err: "no such host", Name: "x", IsNotFound: true, IsTemporary: true, IsTimeout: true},
	&yesErr{"yes"},
	fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", context.Canceled), fmt.Errorf("wrapped: %w", context.DeadlineExceeded),
	fmt.Errorf("wrapped: %w", os.ErrClosed), fmt.Errorf("wrapped: %w", xsync.ErrResourceManagerClosed), fmt.Errorf("two: %w, %w", io.EOF, os.ErrNotExist),
	(*oddErr)(nil),
}

// knownErr returns a well-known error, which may contain others.
func knownErr(r *rand.Rand) error { return knownErrs[r.Intn(len(knownErrs))] }
