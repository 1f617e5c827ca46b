package rest

import (
	"fmt"
	"net/http/httptest"
	"testing"

	"github.com/gin-gonic/gin"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/logging"
)

// Search for an error class that the HTTP response does not carry.
func TestVerifP19(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	r := &Rest{logger: logging.NewLogger("x")}
	for cl, want := range map[error]int{errors.ErrExist: 409, errors.ErrNotExist: 404, errors.ErrInvalid: 400, errors.ErrNotAuthorized: 500, errors.ErrInternal: 500,
		errors.ErrDataLoss: 500, errors.ErrExhausted: 500, errors.ErrUnimplemented: 500, errors.ErrConflict: 409, errors.ErrCanceled: 500, nil: 200} {
		for d := 0; d < 4; d++ {
			w := httptest.NewRecorder()
			c, _ := gin.CreateTestContext(w)
			c.Request = httptest.NewRequest("GET", "/", nil)
			e := cl
			for i := 0; i < d && e != nil; i++ {
				e = fmt.Errorf("w: %w", e)
			}
			e = errors.GRPCWrap(e)
			got := r.errorResponse(c, e, "")
			if got != (e != nil) || w.Code != want {
				t.Fatalf("COUNTEREXAMPLE: errorResponse(%v) = %v, status %d, want %d", e, got, w.Code, want)
			}
		}
	}
}
