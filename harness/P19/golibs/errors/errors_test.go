package errors

import (
	"errors"
	"fmt"
	"testing"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// Search for an error whose class changes on its way through a remote error.
func TestVerifP19(t *testing.T) {
	table := map[error]codes.Code{ErrExist: codes.AlreadyExists, ErrNotExist: codes.NotFound, ErrInvalid: codes.InvalidArgument, ErrNotAuthorized: codes.PermissionDenied,
		ErrInternal: codes.Internal, ErrDataLoss: codes.DataLoss, ErrExhausted: codes.ResourceExhausted, ErrUnimplemented: codes.Unimplemented, ErrConflict: codes.FailedPrecondition, ErrCanceled: codes.Canceled}
	fail := func(f string, a ...any) { t.Helper(); t.Fatalf("COUNTEREXAMPLE: "+f, a...) }
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	if r := GRPCWrap(nil); r != nil {
		fail("GRPCWrap(nil) = %v", r)
	}
	if r := FromGRPCError(nil); r != nil {
		fail("FromGRPCError(nil) = %v", r)
	}
	if c := GRPCStatusCode(nil); c != codes.OK {
		fail("GRPCStatusCode(nil) = %v", c)
	}
	for it := 0; it < 50; it++ {
		for cl, code := range table {
			e := cl
			for d := 0; d < 5; d++ {
				w := GRPCWrap(e)
				if c := GRPCStatusCode(e); c != code {
					fail("GRPCStatusCode(%v) = %v, want %v (wrapped %d times)", cl, c, code, d)
				}
				if w == nil || status.Code(w) != code {
					fail("GRPCWrap of %v wrapped %d times gives %v, want %v", cl, d, w, code)
				}
				if w2 := GRPCWrap(w); w2 != w {
					fail("GRPCWrap changes a remote error: %v -> %v", w, w2)
				}
				if !Is(e, cl) {
					fail("Is(%v, %v) is false", e, cl)
				}
				for c2 := range table {
					if Is(w, c2) != (c2 == cl) {
						fail("Is(%v, %v) = %v for a remote error of class %v", w, c2, Is(w, c2), cl)
					}
				}
				if FromGRPCError(w) != cl {
					fail("FromGRPCError(%v) = %v, want %v", w, FromGRPCError(w), cl)
				}
				if d%2 == 0 {
					e = fmt.Errorf("level %d: %w", d, e)
				} else {
					e = EmbedObject(d, errors.Join(e))
					e = fmt.Errorf("x%w", errors.Unwrap(e))
				}
			}
			if x := EmbedObject(map[string]int{"a": 1}, fmt.Errorf("y %w", cl)); !errors.Is(x, cl) {
				fail("EmbedObject loses the class %v", cl)
			}
		}
		for c := codes.Code(1); c < 20; c++ {
			e := status.Error(c, "m")
			if c != codes.Unknown && GRPCWrap(e) != e {
				fail("GRPCWrap changes the remote error %v", e)
			}
			if c != codes.Unknown && GRPCStatusCode(e) != c {
				fail("GRPCStatusCode(%v) = %v", e, GRPCStatusCode(e))
			}
			if FromGRPCError(e) == nil {
				fail("FromGRPCError(%v) is nil", e)
			}
			for cl, code := range table {
				if c != codes.Unauthenticated && cl != ErrInternal && (FromGRPCError(e) == cl) != (code == c) {
					fail("FromGRPCError(%v) = %v", e, FromGRPCError(e))
				}
			}
		}
		for _, e := range []error{fmt.Errorf("plain"), ErrClosed, ErrCommunication} {
			if w := GRPCWrap(e); w == nil || status.Code(w) != codes.Internal {
				fail("GRPCWrap(%v) = %v", e, w)
			}
		}
	}
}
