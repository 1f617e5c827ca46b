package github.com/solarisdb/solaris/golibs/errors

// scode(e): the gRPC status code carried by an error (2, Unknown, when it carries none)
uf scode(error) Z
extern google.golang.org/grpc/status.Code(err) (r)
  ensures r == scode(err) && 0 <= r
  ensures err != nil ==> r != 0
  ensures err == nil ==> r == 0
extern google.golang.org/grpc/status.Error(c, msg) (err)
  ensures c == 0 ==> err == nil
  ensures c != 0 ==> err != nil && fresh(val(err)) && scode(err) == c
  ensures c != 0 ==> forall t error :: { iserr(err, t) } iserr(err, t) <==> t == err

// the classes that have a status code, and their codes (gRPC: 1 Canceled, 3 InvalidArgument, 5 NotFound,
// 6 AlreadyExists, 7 PermissionDenied, 8 ResourceExhausted, 9 FailedPrecondition, 12 Unimplemented, 13 Internal, 15 DataLoss)
macro isClass(t) = t == ErrExist || t == ErrNotExist || t == ErrInvalid || t == ErrNotAuthorized || t == ErrInternal || t == ErrDataLoss || t == ErrExhausted || t == ErrUnimplemented || t == ErrConflict || t == ErrCanceled
macro codeOf(t) = t == ErrExist ? 6 : t == ErrNotExist ? 5 : t == ErrInvalid ? 3 : t == ErrNotAuthorized ? 7 : t == ErrInternal ? 13 : t == ErrDataLoss ? 15 : t == ErrExhausted ? 8 : t == ErrUnimplemented ? 12 : t == ErrConflict ? 9 : 1
// a local (not remote) error of class t and of no other class
macro ofClass(e, t) = scode(e) == 2 && isClass(t) && iserr(e, t) && forall u error :: { iserr(e, u) } isClass(u) && iserr(e, u) ==> u == t

func FromGRPCError(err) (r)
  prop P19
  ensures @ok scode(err) == 0 ==> r == nil
  ensures @some scode(err) != 0 ==> r != nil
  ensures @class forall t error :: isClass(t) && scode(err) == codeOf(t) ==> r == t
  ensures @only forall t error :: isClass(t) && r == t && t != ErrInternal && scode(err) != 16 ==> scode(err) == codeOf(t)

  ensures @member r == nil || isClass(r) || r == ErrCommunication || r == ErrClosed

func GRPCStatusCode(err) (r)
  prop P19
  inv forall e error :: { e in visited } e in visited ==> !iserr(err, e)
  ensures @remote scode(err) != 2 ==> r == scode(err)
  ensures @class forall t error :: ofClass(err, t) ==> r == codeOf(t)
  ensures @known scode(err) == 2 ==> r == 13 || exists t error :: isClass(t) && iserr(err, t) && r == codeOf(t)

func GRPCWrap(err) (r)
  prop P19
  ensures @remote scode(err) != 2 ==> r == err
  ensures @nil (r == nil) <==> (err == nil)
  ensures @coded err != nil ==> scode(r) != 2 && scode(r) != 0
  ensures @code forall t error :: ofClass(err, t) ==> scode(r) == codeOf(t)
  ensures @other forall t error :: ofClass(err, t) && err != t ==> !iserr(r, t)
func Is(err, target) (r)
  prop P19
  requires target != nil
  ensures @local iserr(err, target) ==> r
  ensures @class forall t error :: isClass(t) && scode(err) == codeOf(t) ==> (r <==> (iserr(err, target) || target == t))
  ensures @only r && isClass(target) && target != ErrInternal && scode(err) != 16 ==> iserr(err, target) || scode(err) == codeOf(target)
func EmbedObject(o, err) (r)
  prop P19
  requires o != nil && err != nil
  panics true
  ensures @class forall t error :: iserr(err, t) ==> iserr(r, t)
