package github.com/solarisdb/solaris/pkg/api/rest

// the HTTP status of the response written last
ghostvar httpStatus Z
extern github.com/gin-gonic/gin.Context.JSON(c, code, obj)
  modifies ghost(httpStatus)
  ensures httpStatus == code
macro remoteOf(e, t) = scode(e) == codeOf(t) && isClass(t)
func (r *Rest) errorResponse(c, err, msg) (handled)
  prop P19
  requires c != nil && c.Request != nil && r.logger != nil
  modifies ghost(httpStatus)
  ensures @some handled <==> err != nil
  ensures @none err == nil ==> httpStatus == old(httpStatus)
  ensures @class err != nil && remoteOf(err, errors.ErrNotExist) && !iserr(err, errors.ErrInvalid) && !iserr(err, errors.ErrExist) && !iserr(err, errors.ErrConflict) ==> httpStatus == 404
  ensures @invalid err != nil && remoteOf(err, errors.ErrInvalid) && !iserr(err, errors.ErrNotExist) && !iserr(err, errors.ErrExist) && !iserr(err, errors.ErrConflict) ==> httpStatus == 400
  ensures @exist err != nil && (remoteOf(err, errors.ErrExist) || remoteOf(err, errors.ErrConflict)) && !iserr(err, errors.ErrNotExist) && !iserr(err, errors.ErrInvalid) ==> httpStatus == 409
  ensures @other forall t error :: err != nil && remoteOf(err, t) && t != errors.ErrExist && t != errors.ErrNotExist && t != errors.ErrInvalid && t != errors.ErrConflict && !iserr(err, errors.ErrNotExist) && !iserr(err, errors.ErrInvalid) && !iserr(err, errors.ErrExist) && !iserr(err, errors.ErrConflict) ==> httpStatus == 500
