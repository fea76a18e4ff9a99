From 7df2ac2c21f8fb02cb62cf3a16ddd4ca7640fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 01/50] fix: keep the text of errors which do not end in the
 text of their cause

---
 error.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index 3e7b33a..d1493e9 100644
--- a/error.go
+++ b/error.go
@@ -16,6 +16,8 @@ type Error struct {
 	Type     string      `json:"t"`
 	Data     interface{} `json:"d,omitempty"`
 	ErrCause *Error      `json:"c,omitempty"`
+	// Verbatim is set when Msg is the complete text, because it can not be composed from Msg and ErrCause
+	Verbatim bool `json:"v,omitempty"`
 }
 
 // NewError returns a new instance
@@ -49,7 +51,11 @@ func NewError(err error) *Error {
 	// unwrap error
 	if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil {
 		inst.ErrCause = NewError(unwrappedErr)
-		inst.Msg = strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())
+		if suffix := ": " + unwrappedErr.Error(); strings.HasSuffix(inst.Msg, suffix) {
+			inst.Msg = strings.TrimSuffix(inst.Msg, suffix)
+		} else {
+			inst.Verbatim = true
+		}
 	}
 
 	return inst
@@ -127,7 +133,7 @@ func (e *Error) Is(err error) bool {
 // Error interface
 func (e *Error) Error() string {
 	msg := e.Msg
-	if e.ErrCause != nil {
+	if e.ErrCause != nil && !e.Verbatim {
 		msg += ": " + e.ErrCause.Error()
 	}
 	return msg
-- 
2.43.0


From ceace2e932d498d0f0229265b58dbee80f2aeb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 02/50] fix: recognise sentinel errors which wrap other errors
 after transport

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index d1493e9..03b92fb 100644
--- a/error.go
+++ b/error.go
@@ -121,7 +121,7 @@ func (e *Error) Is(err error) bool {
 		errElem = errType.Elem()
 	}
 
-	if e.Msg == err.Error() &&
+	if e.Error() == err.Error() &&
 		errType.String() == e.Type &&
 		errElem.PkgPath() == e.Pkg {
 		return true
-- 
2.43.0


From b023d006af4c469cf4533774a21615b86bf2d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 03/50] fix: do not treat a transported error inside of a stack
 wrapper as a new error

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 03b92fb..1f1a5af 100644
--- a/error.go
+++ b/error.go
@@ -31,7 +31,7 @@ func NewError(err error) *Error {
 	if _, ok := err.(interface {
 		StackTrace() errors.StackTrace
 	}); ok && errors.Unwrap(err) != nil {
-		err = errors.Unwrap(err)
+		return NewError(errors.Unwrap(err))
 	}
 
 	// retrieve error details
-- 
2.43.0


From 6a2330a91049a1b239709e0b128253053dd7260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 04/50] fix: transport errors which are zero values

---
 transport.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/transport.go b/transport.go
index 8ea7d95..090f505 100644
--- a/transport.go
+++ b/transport.go
@@ -26,6 +26,16 @@ type clientHandle struct {
 	afterDecodeReply  func(*[]interface{}, []interface{}) error
 }
 
+// isNilError reports whether an error is a typed nil, zero values of other types are errors
+func isNilError(err error) bool {
+	switch v := reflect.ValueOf(err); v.Kind() { //nolint:exhaustive
+	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
+		return v.IsNil()
+	default:
+		return false
+	}
+}
+
 var msgpackClientHandle = &clientHandle{
 	contentType: "application/msgpack; charset=utf-8",
 	handle:      &codec.MsgpackHandle{},
@@ -33,7 +43,7 @@ var msgpackClientHandle = &clientHandle{
 	beforeEncodeReply: func(resp *[]interface{}) error {
 		for k, v := range *resp {
 			if e, ok := v.(error); ok {
-				if r := reflect.ValueOf(e); !r.IsZero() {
+				if !isNilError(e) {
 					(*resp)[k] = NewError(e)
 				}
 			}
-- 
2.43.0


From c1d912f0efff2432d2a89cabe17d0ac044d0e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 05/50] fix: do not decode transported errors into types with
 the same name from other packages

---
 error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 1f1a5af..4d05066 100644
--- a/error.go
+++ b/error.go
@@ -66,7 +66,12 @@ func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
 		return false
 	}
-	if reflect.TypeOf(err).Elem().String() == e.Type {
+	errType := reflect.TypeOf(err).Elem()
+	errElem := errType
+	if errType.Kind() == reflect.Ptr {
+		errElem = errType.Elem()
+	}
+	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {
 		if decodeErr := mapstructure.Decode(e.Data, &err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
-- 
2.43.0


From 28f9d4e6f67a6e6c6fa8a3d30a356157c7a11e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 06/50] fix: decode data of transported errors the way it has
 been encoded

Error data is encoded with the msgpack handle, which names fields by their
json tags and writes times and bytes as raw strings. Decoding it with
mapstructure lost renamed fields and failed for times and bytes.
---
 error.go     | 19 +++++++++++++++++--
 transport.go | 10 +++++-----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/error.go b/error.go
index 4d05066..20c0b88 100644
--- a/error.go
+++ b/error.go
@@ -6,8 +6,8 @@ import (
 	"reflect"
 	"strings"
 
-	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
+	"github.com/ugorji/go/codec"
 )
 
 type Error struct {
@@ -61,6 +61,21 @@ func NewError(err error) *Error {
 	return inst
 }
 
+// decodeErrorData decodes transported error data into the type it has been encoded from
+func decodeErrorData(data, target interface{}) error {
+	targetValue := reflect.ValueOf(target).Elem()
+	if dataValue := reflect.ValueOf(data); dataValue.IsValid() && dataValue.Type().AssignableTo(targetValue.Type()) {
+		// has not been transported
+		targetValue.Set(dataValue)
+		return nil
+	}
+	var b []byte
+	if err := codec.NewEncoderBytes(&b, msgpackHandle).Encode(data); err != nil {
+		return err
+	}
+	return codec.NewDecoderBytes(b, msgpackHandle).Decode(target)
+}
+
 // As interface
 func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
@@ -72,7 +87,7 @@ func (e *Error) As(err interface{}) bool {
 		errElem = errType.Elem()
 	}
 	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {
-		if decodeErr := mapstructure.Decode(e.Data, &err); decodeErr != nil {
+		if decodeErr := decodeErrorData(e.Data, err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
 		} else {
diff --git a/transport.go b/transport.go
index 090f505..c652db8 100644
--- a/transport.go
+++ b/transport.go
@@ -4,7 +4,6 @@ import (
 	"reflect"
 	"time"
 
-	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
 )
@@ -36,9 +35,11 @@ func isNilError(err error) bool {
 	}
 }
 
+var msgpackHandle = &codec.MsgpackHandle{}
+
 var msgpackClientHandle = &clientHandle{
 	contentType: "application/msgpack; charset=utf-8",
-	handle:      &codec.MsgpackHandle{},
+	handle:      msgpackHandle,
 	// transform error type to sth that is transportable
 	beforeEncodeReply: func(resp *[]interface{}) error {
 		for k, v := range *resp {
@@ -71,7 +72,7 @@ var msgpackClientHandle = &clientHandle{
 			if e, ok := v.(*Error); ok && e != nil {
 				if y, ok := (*reply)[k].(*error); ok {
 					*y = e
-				} else if err := mapstructure.Decode(e.Data, (*reply)[k]); err != nil {
+				} else if err := decodeErrorData(e.Data, (*reply)[k]); err != nil {
 					return errors.Wrap(err, "failed to decode wrapped error")
 				}
 			}
@@ -81,12 +82,11 @@ var msgpackClientHandle = &clientHandle{
 }
 
 func init() {
-	mh := new(codec.MsgpackHandle)
+	mh := msgpackHandle
 	// use map[string]interface{} instead of map[interface{}]interface{}
 	mh.MapType = reflect.TypeOf(map[string]interface{}(nil))
 	// attempting to set promoted field in literal will cause a compiler error
 	mh.RawToString = true
-	msgpackClientHandle.handle = mh
 	// WriteExt is not being called
 	// if err := SetJSONExt(time.Time{}, 2, timeExt); err != nil {
 	// 	 panic(err)
-- 
2.43.0


From e85a6604a80afa4ec402e60fecf0c05cca604599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 07/50] fix: report the service's own results to stats and
 monitor

Converting errors for msgpack replaced them in the result list, which turned
the error type of the call stats into *gotsrpc.Error, dropped the error code
and handed converted errors to the monitor. Errors which are zero values of
their type have been ignored.
---
 gotsrpc.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 01345a7..d85ddcb 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -12,7 +12,6 @@ import (
 	"os"
 	"path"
 	"path/filepath"
-	"reflect"
 	"sort"
 	"strconv"
 	"strings"
@@ -95,15 +94,19 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 
 	w.Header().Set("Content-Type", clientHandle.contentType)
 
+	// do not alter the values for stats and monitoring
+	encodable := make([]interface{}, len(response))
+	copy(encodable, response)
+
 	if clientHandle.beforeEncodeReply != nil {
-		if err := clientHandle.beforeEncodeReply(&response); err != nil {
+		if err := clientHandle.beforeEncodeReply(&encodable); err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err.Error())
 			return errors.Wrap(err, "error during before encoder reply")
 		}
 	}
 
 	buf := new(bytes.Buffer)
-	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(response); err != nil {
+	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(encodable); err != nil {
 		_, _ = fmt.Fprintln(os.Stderr, err.Error())
 		return errors.Wrap(err, "could not encode data to accepted format")
 	}
@@ -120,7 +123,7 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 		if len(response) > 0 {
 			errResp := response[len(response)-1]
 			if v, ok := errResp.(error); ok && v != nil {
-				if !reflect.ValueOf(v).IsZero() {
+				if !isNilError(v) {
 					stats.ErrorCode = 1
 					stats.ErrorType = fmt.Sprintf("%T", v)
 					stats.ErrorMessage = v.Error()
-- 
2.43.0


From dd295841b85232c150ba3e0447e0047574524baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 08/50] fix: decode times outside of the range of nanoseconds
 in 64 bits

---
 timeext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeext.go b/timeext.go
index 7326ae5..5b10679 100644
--- a/timeext.go
+++ b/timeext.go
@@ -15,5 +15,5 @@ func (x *TimeExt) ConvertExt(v interface{}) interface{} {
 func (x *TimeExt) UpdateExt(dest interface{}, src interface{}) {
 	tt := dest.(*time.Time) //nolint:forcetypeassert
 
-	*tt = time.Unix(0, src.(int64)*int64(time.Millisecond)).Local() //nolint:forcetypeassert
+	*tt = time.UnixMilli(src.(int64)).Local() //nolint:forcetypeassert
 }
-- 
2.43.0


From a2bbcbf16c17ad3988c15c4137ba1c641711ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 09/50] fix: encode time arguments and results as numbers in
 json

The codec does not apply extensions to times which are direct elements of an
interface slice, so that methods with a time as parameter or result sent RFC 3339
strings, which neither the proxy nor the generated typescript understands.
---
 client.go    |  5 +++++
 transport.go | 22 ++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/client.go b/client.go
index 67ee8bf..1acd3e6 100644
--- a/client.go
+++ b/client.go
@@ -82,6 +82,11 @@ func (c *bufferedClient) Call(ctx context.Context, url string, endpoint string,
 
 	// If no arguments are set, remove
 	if len(args) > 0 {
+		if c.handle.beforeEncodeArgs != nil {
+			if err := c.handle.beforeEncodeArgs(&args); err != nil {
+				return NewClientError(errors.Wrap(err, "failed to call beforeEncodeArgs hook"))
+			}
+		}
 		if err := codec.NewEncoder(b, c.handle.handle).Encode(args); err != nil {
 			return NewClientError(errors.Wrap(err, "failed to encode arguments"))
 		}
diff --git a/transport.go b/transport.go
index c652db8..d64f911 100644
--- a/transport.go
+++ b/transport.go
@@ -20,6 +20,7 @@ var errorType = reflect.TypeOf((*error)(nil)).Elem()
 type clientHandle struct {
 	handle            codec.Handle
 	contentType       string
+	beforeEncodeArgs  func(*[]interface{}) error
 	beforeEncodeReply func(*[]interface{}) error
 	beforeDecodeReply func([]interface{}) ([]interface{}, error)
 	afterDecodeReply  func(*[]interface{}, []interface{}) error
@@ -104,6 +105,27 @@ func init() {
 var jsonClientHandle = &clientHandle{
 	handle:      &codec.JsonHandle{},
 	contentType: "application/json; charset=utf-8",
+	// elements of an interface slice are not encoded through extensions by the codec, if they are times
+	beforeEncodeArgs:  convertTimes,
+	beforeEncodeReply: convertTimes,
+}
+
+// convertTimes replaces times with their encoded values in a copy of the list
+func convertTimes(values *[]interface{}) error {
+	converted := make([]interface{}, len(*values))
+	for k, v := range *values {
+		switch t := v.(type) {
+		case time.Time:
+			v = timeExt.ConvertExt(&t)
+		case *time.Time:
+			if t != nil {
+				v = timeExt.ConvertExt(t)
+			}
+		}
+		converted[k] = v
+	}
+	*values = converted
+	return nil
 }
 
 func NewMSGPackEncoderBytes(b *[]byte) *codec.Encoder {
-- 
2.43.0


From 7e77612fdf59a9184ef28c400e7cc521efc1da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 10/50] fix: set the body of http errors

---
 httperror.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httperror.go b/httperror.go
index b5b059a..c3ce8ab 100644
--- a/httperror.go
+++ b/httperror.go
@@ -15,6 +15,7 @@ func NewHTTPError(msg string, code int) *HTTPError {
 	return &HTTPError{
 		error:      errors.New(msg),
 		StatusCode: code,
+		Body:       msg,
 	}
 }
 
-- 
2.43.0


From 0180f3e13f6b064ffa34554d792b447bbd242b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 11/50] fix: report the request size of chunked requests to
 stats

---
 gotsrpc.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index d85ddcb..2dac733 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -8,6 +8,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io"
 	"net/http"
 	"os"
 	"path"
@@ -47,17 +48,34 @@ func ErrorMethodNotAllowed(w http.ResponseWriter) {
 	http.Error(w, "you gotta POST", http.StatusMethodNotAllowed)
 }
 
+// countingReader counts the bytes which have been read
+type countingReader struct {
+	io.Reader
+	count int
+}
+
+func (r *countingReader) Read(p []byte) (int, error) {
+	n, err := r.Reader.Read(p)
+	r.count += n
+	return n, err
+}
+
 func LoadArgs(args interface{}, callStats *CallStats, r *http.Request) error {
 	start := time.Now()
 
+	body := &countingReader{Reader: r.Body}
 	handle := getHandlerForContentType(r.Header.Get("Content-Type")).handle
-	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil {
+	if errDecode := codec.NewDecoder(body, handle).Decode(args); errDecode != nil {
 		_, _ = fmt.Fprintln(os.Stderr, errDecode.Error())
 		return errors.Wrap(errDecode, "could not decode arguments")
 	}
 	if callStats != nil {
 		callStats.Unmarshalling = time.Since(start)
 		callStats.RequestSize = int(r.ContentLength)
+		if r.ContentLength < 0 {
+			// unknown length, e.g. a chunked request
+			callStats.RequestSize = body.count
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 635f24e3deb33b04c84f513e3a4e98f48d89a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 12/50] fix: allow to instrument more than one service with
 prometheus

The labels tell the services apart, but the second call panicked because of a
duplicate registration.
---
 prometheus/prometheus.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/prometheus/prometheus.go b/prometheus/prometheus.go
index 6cb2862..f2e8c9f 100644
--- a/prometheus/prometheus.go
+++ b/prometheus/prometheus.go
@@ -1,6 +1,7 @@
 package prometheus
 
 import (
+	"errors"
 	"net/http"
 
 	p "github.com/prometheus/client_golang/prometheus"
@@ -8,6 +9,20 @@ import (
 	"github.com/foomo/gotsrpc/v2"
 )
 
+// mustRegister registers a summary or returns the one, which has been registered for another service
+func mustRegister(summary *p.SummaryVec) *p.SummaryVec {
+	if err := p.Register(summary); err != nil {
+		var are p.AlreadyRegisteredError
+		if errors.As(err, &are) {
+			if existing, ok := are.ExistingCollector.(*p.SummaryVec); ok {
+				return existing
+			}
+		}
+		panic(err)
+	}
+	return summary
+}
+
 func InstrumentService(s http.HandlerFunc) (handler http.HandlerFunc) {
 	requestDuration := p.NewSummaryVec(p.SummaryOpts{ //nolint:promlinter
 		Namespace:  "gotsrpc",
@@ -24,8 +39,8 @@ func InstrumentService(s http.HandlerFunc) (handler http.HandlerFunc) {
 		Objectives: map[float64]float64{0.5: 0.05, 0.9: 0.01, 0.99: 0.001},
 	}, []string{"package", "service", "func", "type"})
 
-	p.MustRegister(requestSize)
-	p.MustRegister(requestDuration)
+	requestSize = mustRegister(requestSize)
+	requestDuration = mustRegister(requestDuration)
 
 	return gotsrpc.InstrumentedService(s.ServeHTTP, func(stats *gotsrpc.CallStats) {
 		requestSize.WithLabelValues(stats.Package, stats.Service, stats.Func, "request").Observe(float64(stats.RequestSize))
@@ -43,7 +58,7 @@ func InstrumentGoRPCService() gotsrpc.GoRPCCallStatsHandlerFun {
 		Name:      "time_seconds",
 		Help:      "seconds to execute a service method",
 	}, []string{"package", "service", "func", "type"})
-	p.MustRegister(callsCounter)
+	callsCounter = mustRegister(callsCounter)
 
 	return func(stats *gotsrpc.CallStats) {
 		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
-- 
2.43.0


From 68e3969518f93d46ef61ec2fcd8d5e39bcdb498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 13/50] fix: observe gorpc execution times in seconds, as the
 metric says

---
 prometheus/prometheus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prometheus/prometheus.go b/prometheus/prometheus.go
index f2e8c9f..79c1a11 100644
--- a/prometheus/prometheus.go
+++ b/prometheus/prometheus.go
@@ -61,6 +61,6 @@ func InstrumentGoRPCService() gotsrpc.GoRPCCallStatsHandlerFun {
 	callsCounter = mustRegister(callsCounter)
 
 	return func(stats *gotsrpc.CallStats) {
-		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
+		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(stats.Execution.Seconds())
 	}
 }
-- 
2.43.0


From d2b0b3d4492e9527bbc9080393a0036bc762c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 14/50] fix: do not panic on targets and mappings without a
 value

---
 config/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/config/config.go b/config/config.go
index d84cec9..6090e7a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -100,7 +100,16 @@ func loadConfig(yamlBytes []byte) (conf *Config, err error) {
 		err = errors.New("could not parse yaml: " + yamlErr.Error())
 		return
 	}
+	for name, target := range conf.Targets {
+		if target == nil {
+			conf.Targets[name] = &Target{}
+		}
+	}
 	for goPackage, mapping := range conf.Mappings {
+		if mapping == nil {
+			mapping = &Mapping{}
+			conf.Mappings[goPackage] = mapping
+		}
 		mapping.GoPackage = goPackage
 	}
 	return
-- 
2.43.0


From bab9281e99152373b1bce46dfd6de3000a63a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 15/50] fix: load the go.mod of modules with an absolute path

---
 config/config.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/config/config.go b/config/config.go
index 6090e7a..75973a4 100644
--- a/config/config.go
+++ b/config/config.go
@@ -73,17 +73,19 @@ func LoadConfigFile(file string) (conf *Config, err error) {
 		return nil, err
 	}
 
-	if conf.Module.Path != "" && !path.IsAbs(conf.Module.Path) {
-		absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
-		if err != nil {
-			return nil, err
+	if conf.Module.Path != "" {
+		if !path.IsAbs(conf.Module.Path) {
+			absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
+			if err != nil {
+				return nil, err
+			}
+			conf.Module.Path = absPath
 		}
-		conf.Module.Path = absPath
 
-		if data, err := os.ReadFile(path.Join(absPath, "go.mod")); err != nil && !os.IsNotExist(err) {
+		if data, err := os.ReadFile(path.Join(conf.Module.Path, "go.mod")); err != nil && !os.IsNotExist(err) {
 			return nil, err
 		} else if err == nil {
-			modFile, err := modfile.Parse(path.Join(absPath, "go.mod"), data, nil)
+			modFile, err := modfile.Parse(path.Join(conf.Module.Path, "go.mod"), data, nil)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 0b83d0615fffd82d24d7a6ce3216555395007bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 16/50] fix: do not let parameter and result names clash with
 the generated code

---
 go.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/go.go b/go.go
index c5949fd..e692114 100644
--- a/go.go
+++ b/go.go
@@ -246,7 +246,11 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 						retArgName += "_" + fmt.Sprint(retI)
 					}
 				}
-				returnValueNames = append(returnValueNames, lcfirst(method.Name)+ucfirst(retArgName))
+				returnValueName := lcfirst(method.Name) + ucfirst(retArgName)
+				if returnValueName == "callStats" || returnValueName == "executionStart" {
+					returnValueName += "_"
+				}
+				returnValueNames = append(returnValueNames, returnValueName)
 			}
 			g.l("executionStart := time.Now()")
 			if isSessionRequest {
@@ -285,6 +289,36 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 	return nil
 }
 
+// goNames derives names for the parameters and results of a method,
+// which do not clash with the ones the generated code uses itself
+type goNames struct {
+	reserved map[string]bool
+	taken    map[string]bool
+}
+
+func newGoNames(method *Method, reserved ...string) goNames {
+	n := goNames{reserved: map[string]bool{}, taken: map[string]bool{}}
+	for _, name := range reserved {
+		n.reserved[name] = true
+	}
+	for _, fields := range [][]*Field{method.Args, method.Return} {
+		for _, field := range fields {
+			n.taken[field.Name] = true
+		}
+	}
+	return n
+}
+
+func (n goNames) of(name string) string {
+	if !n.reserved[name] {
+		return name
+	}
+	for n.reserved[name] || n.taken[name] {
+		name += "_"
+	}
+	return name
+}
+
 type goMethod struct {
 	name    string
 	params  []string
@@ -297,14 +331,16 @@ func newMethodSignature(method *Method, aliases map[string]string, fullPackageNa
 	var args []string
 	var params []string
 	params = append(params, "ctx go_context.Context")
+	names := newGoNames(method, "ctx", "tsc", "args", "reply", "clientErr", "pkg_errors")
 	for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-		args = append(args, a.Name)
-		params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+		name := names.of(a.Name)
+		args = append(args, name)
+		params = append(params, name+" "+a.Value.goType(aliases, fullPackageName))
 	}
 	var rets []string
 	var returns []string
 	for i, r := range method.Return {
-		name := r.Name
+		name := names.of(r.Name)
 		if len(name) == 0 {
 			name = fmt.Sprintf("ret%s_%d", method.Name, i)
 		}
@@ -535,6 +571,7 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 			for _, a := range nonHTTPRelatedMethodArgs {
 				argParams = append(argParams, "req."+ucfirst(a.Name))
 			}
+			names := newGoNames(method, "req", "response")
 			rets := []string{}
 			retParams := []string{}
 			for i, r := range method.Return {
@@ -542,8 +579,8 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 				if len(name) == 0 {
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
-				rets = append(rets, name)
-				retParams = append(retParams, ucfirst(name)+`: `+name)
+				rets = append(rets, names.of(name))
+				retParams = append(retParams, ucfirst(name)+`: `+names.of(name))
 			}
 			g.l(`case "` + service.Name + method.Name + `Request":`)
 			if len(nonHTTPRelatedMethodArgs) > 0 {
@@ -633,11 +670,12 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 		g.nl()
 		// Methods
 		for _, method := range service.Methods {
+			names := newGoNames(method, "tsc", "req", "rpcCallRes", "rpcCallErr", "response", "clientErr")
 			args := []string{}
 			params := []string{}
 			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				args = append(args, ucfirst(a.Name)+`: `+a.Name)
-				params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+				args = append(args, ucfirst(a.Name)+`: `+names.of(a.Name))
+				params = append(params, names.of(a.Name)+" "+a.Value.goType(aliases, fullPackageName))
 			}
 			rets := []string{}
 			returns := []string{}
@@ -647,7 +685,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
 				rets = append(rets, "response."+ucfirst(name))
-				returns = append(returns, name+" "+r.Value.goType(aliases, fullPackageName))
+				returns = append(returns, names.of(name)+" "+r.Value.goType(aliases, fullPackageName))
 			}
 			returns = append(returns, "clientErr error")
 			g.l(`func (tsc *` + clientName + `) ` + method.Name + `(` + strings.Join(params, ", ") + `) (` + strings.Join(returns, ", ") + `) {`)
-- 
2.43.0


From 7c4ecbaff7f1cbf393eb9e32be23d8c82e2b1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 17/50] fix: do not qualify interface types with their package
 path in go code

---
 typereader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typereader.go b/typereader.go
index 04c34a4..679c8aa 100644
--- a/typereader.go
+++ b/typereader.go
@@ -412,14 +412,14 @@ func extractTypes(file *ast.File, packageName string, structs map[string]*Struct
 				case *ast.InterfaceType:
 					trace("Interface", obj.Name)
 					scalars[structName] = &Scalar{
-						Name:    structName,
+						Name:    name,
 						Package: packageName,
 						Type:    ScalarTypeAny,
 					}
 				case *ast.Ident:
 					trace("Scalar", obj.Name)
 					scalars[structName] = &Scalar{
-						Name:    structName,
+						Name:    name,
 						Package: packageName,
 						Type:    getScalarFromAstIdent(typeSpecType),
 					}
-- 
2.43.0


From 75dfd1c54e698f3303954075df8ddb5eb054615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 18/50] fix: keep the headers of replies of methods which write
 the status 200 themselves

---
 responsewriter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/responsewriter.go b/responsewriter.go
index 2fca722..d84c09c 100644
--- a/responsewriter.go
+++ b/responsewriter.go
@@ -11,8 +11,14 @@ type ResponseWriter struct {
 }
 
 func (r *ResponseWriter) WriteHeader(status int) {
-	r.status = status
-	r.wroteHeader = true
+	if !r.wroteHeader && (status >= http.StatusOK || status == http.StatusSwitchingProtocols) {
+		r.status = status
+		r.wroteHeader = true
+	}
+	if r.wroteHeader && r.status == http.StatusOK {
+		// the reply will write it along with its own headers
+		return
+	}
 	r.ResponseWriter.WriteHeader(status)
 }
 
-- 
2.43.0


From 57d34a9c261d5bb9bc9bbe66983edb6b528f32bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:09 +0000
Subject: [PATCH 19/50] fix: encode arguments and results which are structs
 with a single pointer field

---
 client.go    |  2 +-
 gotsrpc.go   |  2 +-
 transport.go | 16 ++++++++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 1acd3e6..9f2fa7e 100644
--- a/client.go
+++ b/client.go
@@ -87,7 +87,7 @@ func (c *bufferedClient) Call(ctx context.Context, url string, endpoint string,
 				return NewClientError(errors.Wrap(err, "failed to call beforeEncodeArgs hook"))
 			}
 		}
-		if err := codec.NewEncoder(b, c.handle.handle).Encode(args); err != nil {
+		if err := codec.NewEncoder(b, c.handle.handle).Encode(pointersToStructs(args)); err != nil {
 			return NewClientError(errors.Wrap(err, "failed to encode arguments"))
 		}
 	}
diff --git a/gotsrpc.go b/gotsrpc.go
index 2dac733..621452b 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -124,7 +124,7 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 	}
 
 	buf := new(bytes.Buffer)
-	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(encodable); err != nil {
+	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(pointersToStructs(encodable)); err != nil {
 		_, _ = fmt.Fprintln(os.Stderr, err.Error())
 		return errors.Wrap(err, "could not encode data to accepted format")
 	}
diff --git a/transport.go b/transport.go
index d64f911..a7012c0 100644
--- a/transport.go
+++ b/transport.go
@@ -128,6 +128,22 @@ func convertTimes(values *[]interface{}) error {
 	return nil
 }
 
+// pointersToStructs replaces structs with a single field with pointers to them in a copy of the list.
+// The codec mistakes the pointee for the struct, when that field is a pointer or map, since such a
+// struct is held by an interface as that very pointer
+func pointersToStructs(values []interface{}) []interface{} {
+	ret := make([]interface{}, len(values))
+	for k, v := range values {
+		if val := reflect.ValueOf(v); val.Kind() == reflect.Struct && val.NumField() == 1 {
+			ptr := reflect.New(val.Type())
+			ptr.Elem().Set(val)
+			v = ptr.Interface()
+		}
+		ret[k] = v
+	}
+	return ret
+}
+
 func NewMSGPackEncoderBytes(b *[]byte) *codec.Encoder {
 	return codec.NewEncoderBytes(b, msgpackClientHandle.handle)
 }
-- 
2.43.0


From e936f9f81f6797d21cce1ea632f59c17ea365d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 20/50] fix: do not use reserved words as names of parameters
 in typescript

---
 typscriptclient.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/typscriptclient.go b/typscriptclient.go
index 78b171f..a04d816 100644
--- a/typscriptclient.go
+++ b/typscriptclient.go
@@ -8,6 +8,16 @@ import (
 	"github.com/foomo/gotsrpc/v2/config"
 )
 
+// tsReservedNames can not be used as names of parameters
+var tsReservedNames = []string{
+	"arguments", "await", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else",
+	"enum", "eval", "export", "extends", "false", "finally", "for", "function", "if", "implements", "import", "in", "instanceof",
+	"interface", "let", "new", "null", "package", "private", "protected", "public", "return", "static", "super", "switch", "this",
+	"throw", "true", "try", "typeof", "var", "void", "while", "with", "yield",
+	// used by the generated code
+	"response",
+}
+
 func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) error {
 	clientName := service.Name + "Client"
 
@@ -26,6 +36,7 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 	for _, method := range service.Methods {
 		ts.app("async " + lcfirst(method.Name) + "(")
 		var callArgs []string
+		names := newGoNames(method, tsReservedNames...)
 		argOffset := 0
 		for index, arg := range method.Args {
 			if index == 0 && arg.Value.isHTTPResponseWriter() {
@@ -47,10 +58,10 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 			if index > argOffset {
 				ts.app(", ")
 			}
-			ts.app(arg.tsName())
+			ts.app(names.of(arg.tsName()))
 			ts.app(":")
 			arg.Value.tsType(mappings, scalars, structs, ts, arg.JSONInfo)
-			callArgs = append(callArgs, arg.Name)
+			callArgs = append(callArgs, names.of(arg.Name))
 			argCount++
 		}
 		ts.app("):")
-- 
2.43.0


From 410a8f4a21f133c11ce767d4b6c3b62e8b4477d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 21/50] fix: refer to named types of other files and packages
 by their name, and null if they can be nil, in typescript

---
 typescript.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/typescript.go b/typescript.go
index affc3d4..790545a 100644
--- a/typescript.go
+++ b/typescript.go
@@ -58,12 +58,15 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			if ok {
 				tsModule = mapping.TypeScriptModule
 			}
-			tsType := tsModule + "." + tsTypeFromScalarType(v.ScalarType)
+			tsType := tsModule + "." + v.Scalar.Name
 			if value, ok := tsTypeAliases[tsType]; ok {
 				tsType = value
 			}
 			ts.app(tsType)
-			if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+			hiddenStruct, isHiddenStruct := structs[v.Scalar.FullName()]
+			if isHiddenStruct && (hiddenStruct.Array != nil || hiddenStruct.Map != nil) && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+				ts.app("|null")
+			} else if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 				ts.app("|null")
 			}
 			return
-- 
2.43.0


From 8d8a8143a88840aad644f05ab0a646e651c04338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 22/50] fix: render all typed constants with their values as
 enum members in typescript

---
 servicereader.go | 19 ++++++++++++++++---
 typescript.go    | 41 +++++++++++++++++++++++++++++++++++++++--
 2 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 0349c07..bd3bc51 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -191,6 +191,19 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	return
 }
 
+// getConstantLiteral returns literals including their sign
+func getConstantLiteral(expr ast.Expr) (*ast.BasicLit, bool) {
+	switch exprType := expr.(type) {
+	case *ast.BasicLit:
+		return exprType, true
+	case *ast.UnaryExpr:
+		if lit, ok := exprType.X.(*ast.BasicLit); ok && (exprType.Op == token.ADD || exprType.Op == token.SUB) {
+			return &ast.BasicLit{ValuePos: exprType.OpPos, Kind: lit.Kind, Value: exprType.Op.String() + lit.Value}, true
+		}
+	}
+	return nil, false
+}
+
 func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 	constantTypes := map[string]interface{}{}
 	for _, file := range pkg.Files {
@@ -232,14 +245,14 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 					for _, spec := range genDecl.Specs {
 						if spec, ok := spec.(*ast.ValueSpec); ok {
 							if specType, ok := spec.Type.(*ast.Ident); ok {
-								for _, val := range spec.Values {
-									if valType, ok := val.(*ast.BasicLit); ok {
+								for i, val := range spec.Values {
+									if valType, ok := getConstantLiteral(val); ok && i < len(spec.Names) {
 										if _, ok := constantTypes[specType.Name]; !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										} else if _, ok := constantTypes[specType.Name].(map[string]*ast.BasicLit); !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										}
-										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[0].Name] = valType //nolint:forcetypeassert
+										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[i].Name] = valType //nolint:forcetypeassert
 									}
 								}
 							}
diff --git a/typescript.go b/typescript.go
index 790545a..0f5f0ec 100644
--- a/typescript.go
+++ b/typescript.go
@@ -1,9 +1,13 @@
 package gotsrpc
 
 import (
+	"bytes"
+	"encoding/json"
 	"errors"
 	"go/ast"
+	"go/constant"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -268,8 +272,7 @@ func renderTypescriptStructsToPackages(
 					sort.Strings(keys)
 					packageCodeMap[packageConstantTypeName].l("export enum " + packageConstantTypeName + " {").ind(1)
 					for _, k := range keys {
-						enum := strings.TrimPrefix(strcase.ToCamel(k), packageConstantTypeName)
-						packageCodeMap[packageConstantTypeName].l(enum + " = " + packageConstantTypeValuesList[k].Value + ",")
+						packageCodeMap[packageConstantTypeName].l(tsEnumMember(k, packageConstantTypeName) + " = " + tsEnumValue(packageConstantTypeValuesList[k]) + ",")
 					}
 					packageCodeMap[packageConstantTypeName].ind(-1).l("}")
 				} else if packageConstantTypeValuesString, ok := packageConstantTypeValues.(string); ok {
@@ -293,6 +296,40 @@ func renderTypescriptStructsToPackages(
 	return nil
 }
 
+// tsEnumMember is the name of a constant without the name of its type, unless that is no identifier
+func tsEnumMember(constantName string, typeName string) string {
+	name := strcase.ToCamel(constantName)
+	if member := strings.TrimPrefix(name, typeName); member != "" && (member[0] < '0' || member[0] > '9') {
+		return member
+	}
+	return name
+}
+
+// tsEnumValue is the value of a go literal as typescript literal
+func tsEnumValue(lit *ast.BasicLit) string {
+	unsigned := strings.TrimLeft(lit.Value, "+-")
+	switch value := constant.MakeFromLiteral(unsigned, lit.Kind, 0); value.Kind() { //nolint:exhaustive
+	case constant.String:
+		var buf bytes.Buffer
+		encoder := json.NewEncoder(&buf)
+		encoder.SetEscapeHTML(false)
+		if err := encoder.Encode(constant.StringVal(value)); err == nil {
+			return strings.TrimSpace(buf.String())
+		}
+	case constant.Int, constant.Float:
+		sign := ""
+		if lit.Value[0] == '-' {
+			sign = "-"
+		}
+		if value.Kind() == constant.Int {
+			return sign + value.ExactString()
+		}
+		number, _ := constant.Float64Val(value)
+		return sign + strconv.FormatFloat(number, 'g', -1, 64)
+	}
+	return lit.Value
+}
+
 func split(str string, seps []string) []string {
 	var res []string
 	strs := []string{str}
-- 
2.43.0


From fbecb98d5c3c5067ae57ae1961148b625c65ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:18 +0000
Subject: [PATCH 23/50] fix: collect the types which are only used inside of
 anonymous structs

---
 servicereader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index bd3bc51..0135699 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -572,6 +572,14 @@ func needsWorkValue(value *Value, needsWork func(fullName string) bool) bool {
 		if needsWorkValue(value.Map.Key, needsWork) || needsWorkValue(value.Map.Value, needsWork) {
 			return true
 		}
+	case value.Struct != nil:
+		for _, fields := range [][]*Field{value.Struct.Fields, value.Struct.InlineFields, value.Struct.UnionFields} {
+			for _, field := range fields {
+				if needsWorkValue(field.Value, needsWork) {
+					return true
+				}
+			}
+		}
 	}
 	return false
 }
-- 
2.43.0


From e61e639781518ed35972dd1f2e5558decac541f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 24/50] fix: quote the names of fields which are no identifiers
 in typescript

---
 typescript.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/typescript.go b/typescript.go
index 0f5f0ec..da65716 100644
--- a/typescript.go
+++ b/typescript.go
@@ -9,6 +9,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/iancoleman/strcase"
 
@@ -20,6 +21,11 @@ func (f *Field) tsName() string {
 	if f.JSONInfo != nil && len(f.JSONInfo.Name) > 0 {
 		n = f.JSONInfo.Name
 	}
+	for i, r := range n {
+		if r != '_' && r != '$' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
+			return strconv.Quote(n)
+		}
+	}
 	return n
 }
 
-- 
2.43.0


From 6154a5e8ecf84316131937362b97b6f6c42d4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:19 +0000
Subject: [PATCH 25/50] fix: bytes are base64 strings and a single byte is a
 number in typescript

---
 servicereader.go |  4 +---
 typescript.go    | 30 +++++++++++++++++++-----------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 0135699..2f22899 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -222,14 +222,12 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 								constantTypes[spec.Name.Name] = "any"
 							case *ast.Ident:
 								switch specType.Name {
-								case "byte":
-									constantTypes[spec.Name.Name] = "any"
 								case "string":
 									constantTypes[spec.Name.Name] = "string"
 								case "bool":
 									constantTypes[spec.Name.Name] = "boolean"
 								case "float", "float32", "float64",
-									"int", "int8", "int16", "int32", "int64",
+									"int", "int8", "int16", "int32", "int64", "byte",
 									"uint", "uint8", "uint16", "uint32", "uint64":
 									constantTypes[spec.Name.Name] = "number"
 								default:
diff --git a/typescript.go b/typescript.go
index da65716..4743334 100644
--- a/typescript.go
+++ b/typescript.go
@@ -51,13 +51,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			ts.app("|null")
 		}
 	case v.Array != nil:
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app("Array<")
-		}
-		v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app(">")
-		}
+		v.Array.tsType(mappings, scalars, structs, ts)
 		if jsonInfo == nil || !jsonInfo.OmitEmpty {
 			ts.app("|null")
 		}
@@ -117,10 +111,25 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	}
 }
 
+// isBytes tells whether the elements are bytes, json transports these as base64
+func (a *Array) isBytes() bool {
+	return !a.Value.IsPtr && (a.Value.GoScalarType == "byte" || a.Value.GoScalarType == "uint8")
+}
+
+func (a *Array) tsType(mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
+	if a.isBytes() {
+		ts.app(string(ScalarTypeString))
+		return
+	}
+	ts.app("Array<")
+	a.Value.tsType(mappings, scalars, structs, ts, nil)
+	ts.app(">")
+}
+
 func tsTypeFromScalarType(scalarType ScalarType) string {
 	switch scalarType { //nolint:exhaustive
 	case ScalarTypeByte:
-		return "string"
+		return string(ScalarTypeNumber)
 	case ScalarTypeBool:
 		return "boolean"
 	}
@@ -149,9 +158,8 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 	ts.l("// " + str.FullName())
 	switch {
 	case str.Array != nil:
-		ts.app("export type " + str.Name + " = Array<")
-		str.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		ts.app(">")
+		ts.app("export type " + str.Name + " = ")
+		str.Array.tsType(mappings, scalars, structs, ts)
 		ts.nl()
 	case str.Map != nil:
 		ts.app("export type " + str.Name + " = Record<")
-- 
2.43.0


From 8a1d461f2767aab8e41d953cb93c2e17887bdc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 26/50] fix: do not let the aliases of packages clash

---
 build.go | 13 ++++++++++---
 go.go    | 27 +++++++++++++++++----------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/build.go b/build.go
index efcf0f7..304fd58 100644
--- a/build.go
+++ b/build.go
@@ -17,9 +17,16 @@ import (
 )
 
 func deriveCommonJSMapping(conf *config.Config) {
-	replacer := strings.NewReplacer(".", "_", "/", "_", "-", "_")
-	for _, mapping := range conf.Mappings {
-		mapping.TypeScriptModule = replacer.Replace(mapping.GoPackage)
+	goPackages := make([]string, 0, len(conf.Mappings))
+	for goPackage := range conf.Mappings {
+		goPackages = append(goPackages, goPackage)
+	}
+	sort.Strings(goPackages)
+	taken := map[string]bool{}
+	for _, goPackage := range goPackages {
+		mapping := conf.Mappings[goPackage]
+		mapping.TypeScriptModule = uniquePackageAlias(mapping.GoPackage, taken)
+		taken[mapping.TypeScriptModule] = true
 	}
 }
 
diff --git a/go.go b/go.go
index e692114..f8f10b7 100644
--- a/go.go
+++ b/go.go
@@ -70,24 +70,26 @@ func strfirst(str string, strfunc func(string) string) string {
 }
 
 func extractImport(packageName string, fullPackageName string, aliases map[string]string) {
-	r := strings.NewReplacer(".", "_", "/", "_", "-", "_")
 	if packageName != fullPackageName {
 		if _, ok := aliases[packageName]; !ok {
-			packageParts := strings.Split(packageName, "/")
-			beautifulAlias := packageParts[len(packageParts)-1]
-			uglyAlias := r.Replace(packageName)
-			alias := uglyAlias // beautifulAlias
+			taken := map[string]bool{}
 			for _, otherAlias := range aliases {
-				if otherAlias == beautifulAlias {
-					alias = uglyAlias
-					break
-				}
+				taken[otherAlias] = true
 			}
-			aliases[packageName] = alias
+			aliases[packageName] = uniquePackageAlias(packageName, taken)
 		}
 	}
 }
 
+// uniquePackageAlias is an identifier for a package, which is not taken
+func uniquePackageAlias(packageName string, taken map[string]bool) string {
+	alias := strings.NewReplacer(".", "_", "/", "_", "-", "_").Replace(packageName)
+	for taken[alias] {
+		alias += "_"
+	}
+	return alias
+}
+
 func extractImports(fields []*Field, fullPackageName string, aliases map[string]string) {
 	for _, f := range fields {
 		extractImportValue(f.Value, fullPackageName, aliases)
@@ -126,7 +128,12 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 		}
 	}
 
+	unionPackages := make([]string, 0, len(unions))
 	for pkg := range unions {
+		unionPackages = append(unionPackages, pkg)
+	}
+	sort.Strings(unionPackages)
+	for _, pkg := range unionPackages {
 		extractImport(pkg, fullPackageName, aliases)
 	}
 
-- 
2.43.0


From 13a9d67565da630dace10a55c89e9939772a79a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 27/50] fix: qualify types in packages which are named like the
 package of the type

---
 go.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/go.go b/go.go
index f8f10b7..f929008 100644
--- a/go.go
+++ b/go.go
@@ -139,7 +139,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 
 	g.l(renderImports(aliases, packageName))
 
-	renderInit(unions, aliases, packageName, g)
+	renderInit(unions, aliases, fullPackageName, g)
 
 	for _, service := range services {
 		// Check if we should render this service as ts rcp
@@ -224,7 +224,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 
 				for _, arg := range nonHTTPRelatedArgs {
 					argName := "arg_" + arg.Name
-					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, packageName))
+					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, fullPackageName))
 					args = append(args, "&"+argName)
 					callArgs = append(callArgs, argName)
 					skipArgI++
@@ -773,7 +773,7 @@ func goMethodArgsWithoutHTTPContextRelatedArgs(m *Method) (filteredArgs []*Field
 	return
 }
 
-func renderInit(unions map[string][]string, aliases map[string]string, packageName string, g *code) {
+func renderInit(unions map[string][]string, aliases map[string]string, fullPackageName string, g *code) {
 	if len(unions) > 0 {
 		g.l("func init() {")
 		g.ind(1)
@@ -781,7 +781,7 @@ func renderInit(unions map[string][]string, aliases map[string]string, packageNa
 		for pkg, us := range unions {
 			for _, name := range us {
 				var str string
-				if packageName != pkg && aliases[pkg] != "" {
+				if fullPackageName != pkg && aliases[pkg] != "" {
 					str += aliases[pkg] + "."
 				}
 				str += name
-- 
2.43.0


From dd357d5ae6baaa24548664ae3702e0ade1f0cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 28/50] fix: import only the modules which are referred to in
 typescript

---
 build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 304fd58..690f165 100644
--- a/build.go
+++ b/build.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"sort"
 	"strings"
@@ -48,7 +49,9 @@ func commonJSImports(conf *config.Config, c *code, tsFilename string, code strin
 	for _, packageName := range packageNames {
 		importMapping := conf.Mappings[packageName]
 
-		if len(code) > 0 && !strings.Contains(code, importMapping.TypeScriptModule+".") {
+		// references to the module, but not to one whose name only ends in it
+		reference := regexp.MustCompile("(^|[.]{3}|[^[:word:]$./\"-])" + regexp.QuoteMeta(importMapping.TypeScriptModule) + "[.]")
+		if len(code) > 0 && !reference.MatchString(code) {
 			continue
 		}
 
-- 
2.43.0


From 92dcc134267dd900cfece99fb2dc0772f92f6a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:58 +0000
Subject: [PATCH 29/50] fix: resolve the types and scalars included by mappings
 for the first target with an output, from any package

---
 build.go         | 29 ++++++++++++++++++-----------
 servicereader.go | 12 ++++++++++++
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/build.go b/build.go
index 690f165..060778d 100644
--- a/build.go
+++ b/build.go
@@ -85,17 +85,11 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 	}
 	sort.Strings(names)
 
-	missingTypes := map[string]bool{}
-	for _, mapping := range conf.Mappings {
-		for _, include := range mapping.Structs {
-			missingTypes[include] = true
-		}
-	}
-
-	missingConstants := map[string]bool{}
-	for _, mapping := range conf.Mappings {
-		for _, include := range mapping.Scalars {
-			missingConstants[include] = true
+	// the types included by mappings are written along with those of the first target with an output
+	includingName := ""
+	for _, name := range names {
+		if includingName == "" || (conf.Targets[includingName].Out == "" && conf.Targets[name].Out != "") {
+			includingName = name
 		}
 	}
 
@@ -136,6 +130,19 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 			goPaths = append(goPaths, vendorDirectory)
 		}
 
+		missingTypes := map[string]bool{}
+		missingConstants := map[string]bool{}
+		if name == includingName {
+			for _, mapping := range conf.Mappings {
+				for _, include := range mapping.Structs {
+					missingTypes[include] = true
+				}
+				for _, include := range mapping.Scalars {
+					missingConstants[include] = true
+				}
+			}
+		}
+
 		pkgName, services, structs, scalars, constantTypes, err := Read(goPaths, conf.Module, packageName, target.Services, missingTypes, missingConstants)
 		if err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, "\t an error occurred while trying to understand your code: ", err)
diff --git a/servicereader.go b/servicereader.go
index 2f22899..130a703 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"path"
 	"reflect"
 	"sort"
 	"strings"
@@ -318,6 +319,17 @@ func Read(
 	traceData(scalars)
 	trace("---------------- /found scalars -------------------")
 	allConstantTypes := map[string]map[string]interface{}{}
+	for missingConstant := range missingConstants {
+		constantPackage := strings.TrimSuffix(missingConstant, path.Ext(missingConstant))
+		if _, ok := allConstantTypes[constantPackage]; !ok {
+			pkg, constPkgErr := parsePackage(goPaths, gomod, constantPackage)
+			if constPkgErr != nil {
+				err = constPkgErr
+				return
+			}
+			allConstantTypes[constantPackage] = loadConstantTypes(pkg)
+		}
+	}
 	for _, structDef := range structs {
 		if structDef != nil {
 			structPackage := structDef.Package
-- 
2.43.0


From 34516f5594921acf19e2bc0720f7da5fbc3d353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 30/50] fix: remove the generated files of all targets before
 loading packages

---
 build.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/build.go b/build.go
index 060778d..005fb58 100644
--- a/build.go
+++ b/build.go
@@ -93,6 +93,18 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		}
 	}
 
+	// remove the generated files of all targets first, since targets may load the packages of others
+	for _, name := range names {
+		outputPath := getPathForTarget(conf.Module, goPath, conf.Targets[name])
+		for _, base := range []string{"gorpc_gen.go", "gorpcclient_gen.go", "gotsrpc_gen.go", "gotsrpcclient_gen.go"} {
+			filename := path.Join(outputPath, base)
+			if _, err := os.Stat(filename); err == nil {
+				_, _ = fmt.Fprintln(os.Stderr, "removing existing", filename)
+				os.Remove(filename)
+			}
+		}
+	}
+
 	for _, name := range names {
 		target := conf.Targets[name]
 
@@ -105,18 +117,6 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		goTSRPCProxiesFilename := path.Join(outputPath, "gotsrpc_gen.go")
 		goTSRPCClientsFilename := path.Join(outputPath, "gotsrpcclient_gen.go")
 
-		remove := func(filename string) {
-			_, err := os.Stat(filename)
-			if err == nil {
-				_, _ = fmt.Fprintln(os.Stderr, "	removing existing", filename)
-				os.Remove(filename)
-			}
-		}
-		remove(goRPCProxiesFilename)
-		remove(goRPCClientsFilename)
-		remove(goTSRPCProxiesFilename)
-		remove(goTSRPCClientsFilename)
-
 		workDirectory, err := os.Getwd()
 		if err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err)
-- 
2.43.0


From 61cacf53e3bf9c22559aeddc64b5dbc56daeb03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 31/50] fix: look up packages in the modules and directories go
 itself uses

---
 build.go   |   7 +--
 gotsrpc.go | 148 ++++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 112 insertions(+), 43 deletions(-)

diff --git a/build.go b/build.go
index 005fb58..ad73429 100644
--- a/build.go
+++ b/build.go
@@ -65,7 +65,7 @@ func commonJSImports(conf *config.Config, c *code, tsFilename string, code strin
 }
 
 func getPathForTarget(gomod config.Namespace, goPath string, target *config.Target) (outputPath string) {
-	if gomod.Name != "" && strings.HasPrefix(target.Package, gomod.Name) {
+	if inModule(target.Package, gomod.Name) {
 		relative := strings.TrimPrefix(target.Package, gomod.Name)
 		return path.Join(gomod.Path, relative)
 	} else {
@@ -124,11 +124,12 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		}
 		vendorDirectory := path.Join(workDirectory, "vendor")
 
-		goPaths := []string{goPath, runtime.GOROOT()}
-
+		// in the order of go's preference
+		goPaths := []string{runtime.GOROOT()}
 		if _, err := os.Stat(vendorDirectory); !os.IsNotExist(err) {
 			goPaths = append(goPaths, vendorDirectory)
 		}
+		goPaths = append(goPaths, goPath)
 
 		missingTypes := map[string]bool{}
 		missingConstants := map[string]bool{}
diff --git a/gotsrpc.go b/gotsrpc.go
index 621452b..a048728 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -20,6 +20,7 @@ import (
 
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
+	"golang.org/x/mod/module"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -161,53 +162,120 @@ func parserExcludeFiles(info os.FileInfo) bool {
 	return !strings.HasSuffix(info.Name(), "_test.go")
 }
 
-func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
-	if gomod.Name != "" && strings.HasPrefix(packageName, gomod.Name) {
-		fset := token.NewFileSet()
-		dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)
-		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.DeclarationErrors|parser.AllErrors)
-		return pkgs, fset, err
+// inModule tells if a package belongs to a module by its path
+func inModule(packageName, modulePath string) bool {
+	return modulePath != "" && (packageName == modulePath || strings.HasPrefix(packageName, modulePath+"/"))
+}
+
+// moduleCacheDir returns the directory of a module version in the module cache
+func moduleCacheDir(goPath string, mod module.Version) string {
+	modulePath, err := module.EscapePath(mod.Path)
+	if err != nil {
+		modulePath = mod.Path
 	}
+	version, err := module.EscapeVersion(mod.Version)
+	if err != nil {
+		version = mod.Version
+	}
+	return path.Join(goPath, "pkg", "mod", modulePath+"@"+version)
+}
 
-	errorStrings := map[string]string{}
-	for _, goPath := range goPaths {
-		var dir string
-		fset := token.NewFileSet()
-		if gomod.ModFile != nil {
-			for _, rep := range gomod.ModFile.Replace {
-				if packageName == rep.Old.Path || strings.HasPrefix(packageName, rep.Old.Path+"/") {
-					if strings.HasPrefix(rep.New.String(), ".") || strings.HasPrefix(rep.New.Path, "/") {
-						trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.Replace(packageName, rep.Old.Path, filepath.Join(gomod.Path, rep.New.Path), 1)
-					} else {
-						trace("replacing package", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", rep.New.String(), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
-					}
-					break
-				}
-			}
-			if dir == "" {
-				for _, req := range gomod.ModFile.Require {
-					if packageName == req.Mod.Path || strings.HasPrefix(packageName, req.Mod.Path+"/") {
-						trace("resolving mod package", packageName, req.Mod.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", req.Mod.String(), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
-						break
-					}
-				}
+// moduleDirs returns the directories of the modules of a go.mod by module path
+func moduleDirs(goPaths []string, gomod config.Namespace) map[string][]string {
+	dirs := map[string][]string{}
+	if gomod.ModFile == nil {
+		return dirs
+	}
+	add := func(modulePath string, mod module.Version) {
+		switch {
+		case mod.Version != "":
+			dirs[modulePath] = nil
+			for _, goPath := range goPaths {
+				dirs[modulePath] = append(dirs[modulePath], moduleCacheDir(goPath, mod))
 			}
+		case filepath.IsAbs(mod.Path):
+			dirs[modulePath] = []string{mod.Path}
+		default:
+			dirs[modulePath] = []string{filepath.Join(gomod.Path, mod.Path)}
 		}
-		if dir == "" {
-			if strings.HasSuffix(goPath, "vendor") {
-				dir = path.Join(goPath, packageName)
-			} else {
-				dir = path.Join(goPath, "src", packageName)
-			}
+	}
+	versions := map[string]string{}
+	for _, req := range gomod.ModFile.Require {
+		versions[req.Mod.Path] = req.Mod.Version
+		add(req.Mod.Path, req.Mod)
+	}
+	for _, rep := range gomod.ModFile.Replace {
+		if rep.Old.Version == "" {
+			add(rep.Old.Path, rep.New)
+		}
+	}
+	for _, rep := range gomod.ModFile.Replace {
+		if rep.Old.Version != "" && rep.Old.Version == versions[rep.Old.Path] {
+			add(rep.Old.Path, rep.New)
+		}
+	}
+	return dirs
+}
+
+// packageDirs returns the directories a package may be in, the first one with go files is the one to use
+func packageDirs(goPaths []string, gomod config.Namespace, packageName string) []string {
+	var dirs []string
+	modules := moduleDirs(goPaths, gomod)
+	if gomod.Name != "" {
+		modules[gomod.Name] = []string{gomod.Path}
+	}
+	if gomod.ModFile != nil {
+		vendorDirectory := filepath.Join(gomod.Path, "vendor")
+		if _, err := os.Stat(filepath.Join(vendorDirectory, "modules.txt")); err == nil {
+			dirs = append(dirs, filepath.Join(vendorDirectory, packageName))
+		}
+	}
+	var modulePaths []string
+	for modulePath := range modules {
+		if inModule(packageName, modulePath) {
+			modulePaths = append(modulePaths, modulePath)
+		}
+	}
+	// nested modules first
+	sort.Sort(byLen(modulePaths))
+	for _, modulePath := range modulePaths {
+		for _, dir := range modules[modulePath] {
+			dirs = append(dirs, filepath.Join(dir, strings.TrimPrefix(packageName, modulePath)))
+		}
+	}
+	if inModule(packageName, gomod.Name) {
+		return dirs
+	}
+	for _, goPath := range goPaths {
+		if strings.HasSuffix(goPath, "vendor") {
+			dirs = append(dirs, path.Join(goPath, packageName))
+		} else {
+			dirs = append(dirs, path.Join(goPath, "src", packageName))
+		}
+	}
+	return dirs
+}
+
+func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
+	mode := parser.AllErrors
+	if inModule(packageName, gomod.Name) {
+		mode |= parser.DeclarationErrors
+	}
+	errorStrings := map[string]string{}
+	for _, dir := range packageDirs(goPaths, gomod, packageName) {
+		if _, err := os.Stat(dir); err != nil {
+			errorStrings[dir] = err.Error()
+			continue
+		}
+		fset := token.NewFileSet()
+		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, mode)
+		if err != nil {
+			return nil, nil, err
 		}
-		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.AllErrors)
-		if err == nil {
+		if len(pkgs) > 0 {
 			return pkgs, fset, nil
 		}
-		errorStrings[dir] = err.Error()
+		errorStrings[dir] = "no go files"
 	}
 	return nil, nil, errors.New("could not parse dir for package name: " + packageName + " in goPaths " + strings.Join(goPaths, ", ") + " : " + fmt.Sprint(errorStrings))
 }
-- 
2.43.0


From a61ac8aa4052e9dcfe374c75d301ca921218c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 32/50] fix: fail if a service is not declared in the package
 of its target

---
 servicereader.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 130a703..24aae3e 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -163,6 +163,21 @@ func readFields(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields
 	return
 }
 
+func declaresType(pkg *ast.Package, name string) bool {
+	for _, file := range pkg.Files {
+		for _, decl := range file.Decls {
+			if genDecl, ok := decl.(*ast.GenDecl); ok && genDecl.Tok == token.TYPE {
+				for _, spec := range genDecl.Specs {
+					if typeSpec, ok := spec.(*ast.TypeSpec); ok && typeSpec.Name.Name == name {
+						return true
+					}
+				}
+			}
+		}
+	}
+	return false
+}
+
 func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[string]string) (services ServiceList, err error) {
 	if pkg == nil {
 		return nil, errors.New("package cannot be nil")
@@ -181,6 +196,12 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	}
 	sort.Strings(pkgFiles)
 
+	for _, service := range services {
+		if !declaresType(pkg, service.Name) {
+			return nil, errors.New("could not find service " + service.Name + " in package " + packageName)
+		}
+	}
+
 	for _, k := range pkgFiles {
 		file := pkg.Files[k]
 		err = readServiceFile(file, packageName, services)
-- 
2.43.0


From 98f22440f5d8972dfc9110210496fe35e0268324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 33/50] fix: fail if the types of a package can not be written

---
 build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.go b/build.go
index ad73429..b274165 100644
--- a/build.go
+++ b/build.go
@@ -287,6 +287,7 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		updateErr := updateCode(mapping.Out, getTSHeaderComment()+ts)
 		if updateErr != nil {
 			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
+			os.Exit(6)
 		}
 	}
 }
-- 
2.43.0


From f6fff3af3d97544d4ddf5d42a4b012337355c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 34/50] fix: fail if the services to generate are not those of
 the target

---
 build.go         | 12 ++++++++++++
 config/config.go |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/build.go b/build.go
index b274165..d0d2fb6 100644
--- a/build.go
+++ b/build.go
@@ -85,6 +85,18 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 	}
 	sort.Strings(names)
 
+	for _, name := range names {
+		target := conf.Targets[name]
+		for _, services := range [][]string{target.TSRPC, target.GoRPC} {
+			for _, service := range services {
+				if !target.HasService(service) {
+					_, _ = fmt.Fprintln(os.Stderr, "target", name, "has no service", service)
+					os.Exit(2)
+				}
+			}
+		}
+	}
+
 	// the types included by mappings are written along with those of the first target with an output
 	includingName := ""
 	for _, name := range names {
diff --git a/config/config.go b/config/config.go
index 75973a4..78a4e58 100644
--- a/config/config.go
+++ b/config/config.go
@@ -20,6 +20,15 @@ type Target struct {
 	SkipTSRPCClient  bool              `yaml:"skipTSRPCClient"`
 }
 
+func (t *Target) HasService(service string) bool {
+	for _, value := range t.Services {
+		if value == service {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *Target) IsGoRPC(service string) bool {
 	for _, value := range t.GoRPC {
 		if value == service {
-- 
2.43.0


From 4c3e015783eb3fc2a922d3ab9c7026ecbb617298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 35/50] fix: keep the text of errors which have a stack trace
 and a text of their own

---
 error.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/error.go b/error.go
index 20c0b88..6d1853d 100644
--- a/error.go
+++ b/error.go
@@ -10,6 +10,8 @@ import (
 	"github.com/ugorji/go/codec"
 )
 
+var withStackType = reflect.TypeOf(errors.WithStack(io.EOF))
+
 type Error struct {
 	Msg      string      `json:"m"`
 	Pkg      string      `json:"p"`
@@ -28,9 +30,7 @@ func NewError(err error) *Error {
 	}
 
 	// skip *withStack error type
-	if _, ok := err.(interface {
-		StackTrace() errors.StackTrace
-	}); ok && errors.Unwrap(err) != nil {
+	if reflect.TypeOf(err) == withStackType {
 		return NewError(errors.Unwrap(err))
 	}
 
-- 
2.43.0


From 0bf1bc6dbf6e0a643d44576b803d79a476048618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 36/50] fix: recognise sentinel errors with a stack trace after
 transport

---
 error.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 6d1853d..91cdf54 100644
--- a/error.go
+++ b/error.go
@@ -20,6 +20,8 @@ type Error struct {
 	ErrCause *Error      `json:"c,omitempty"`
 	// Verbatim is set when Msg is the complete text, because it can not be composed from Msg and ErrCause
 	Verbatim bool `json:"v,omitempty"`
+	// Stack is set when the error has been in a *withStack, which is skipped
+	Stack bool `json:"s,omitempty"`
 }
 
 // NewError returns a new instance
@@ -31,7 +33,9 @@ func NewError(err error) *Error {
 
 	// skip *withStack error type
 	if reflect.TypeOf(err) == withStackType {
-		return NewError(errors.Unwrap(err))
+		inst := *NewError(errors.Unwrap(err))
+		inst.Stack = true
+		return &inst
 	}
 
 	// retrieve error details
@@ -141,6 +145,10 @@ func (e *Error) Is(err error) bool {
 		errElem = errType.Elem()
 	}
 
+	if e.Stack && errType == withStackType && e.Error() == err.Error() {
+		return true
+	}
+
 	if e.Error() == err.Error() &&
 		errType.String() == e.Type &&
 		errElem.PkgPath() == e.Pkg {
-- 
2.43.0


From 59ccb8d7ae8b601f0e39031a342a47b5e4cbbbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 37/50] fix: keep the errors which struct errors hold in their
 fields

---
 error.go | 89 +++++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 85 insertions(+), 4 deletions(-)

diff --git a/error.go b/error.go
index 91cdf54..6035e4b 100644
--- a/error.go
+++ b/error.go
@@ -49,7 +49,7 @@ func NewError(err error) *Error {
 		Msg:  err.Error(),
 		Type: errType.String(),
 		Pkg:  errElem.PkgPath(),
-		Data: err,
+		Data: errorData(err),
 	}
 
 	// unwrap error
@@ -65,6 +65,54 @@ func NewError(err error) *Error {
 	return inst
 }
 
+// errorFields returns the indices of the fields of a struct which hold errors by the keys they are encoded with
+func errorFields(t reflect.Type) map[string]int {
+	fields := map[string]int{}
+	for i := 0; i < t.NumField(); i++ {
+		field := t.Field(i)
+		if field.Type != errorType || !field.IsExported() {
+			continue
+		}
+		tag, ok := field.Tag.Lookup("codec")
+		if !ok {
+			tag = field.Tag.Get("json")
+		}
+		key, _, _ := strings.Cut(tag, ",")
+		if key == "-" {
+			continue
+		}
+		if key == "" {
+			key = field.Name
+		}
+		fields[key] = i
+	}
+	return fields
+}
+
+// errorData returns an error, or a copy of it with transportable errors in its fields
+func errorData(err error) interface{} {
+	val := reflect.Indirect(reflect.ValueOf(err))
+	if val.Kind() != reflect.Struct {
+		return err
+	}
+	data, changed := reflect.New(val.Type()), false
+	data.Elem().Set(val)
+	for _, i := range errorFields(val.Type()) {
+		if held, ok := val.Field(i).Interface().(error); ok && !isNilError(held) {
+			data.Elem().Field(i).Set(reflect.ValueOf(NewError(held)))
+			changed = true
+		}
+	}
+	switch {
+	case !changed:
+		return err
+	case reflect.TypeOf(err).Kind() == reflect.Ptr:
+		return data.Interface()
+	default:
+		return data.Elem().Interface()
+	}
+}
+
 // decodeErrorData decodes transported error data into the type it has been encoded from
 func decodeErrorData(data, target interface{}) error {
 	targetValue := reflect.ValueOf(target).Elem()
@@ -73,11 +121,44 @@ func decodeErrorData(data, target interface{}) error {
 		targetValue.Set(dataValue)
 		return nil
 	}
-	var b []byte
-	if err := codec.NewEncoderBytes(&b, msgpackHandle).Encode(data); err != nil {
+	recode := func(from, to interface{}) error {
+		var b []byte
+		if err := codec.NewEncoderBytes(&b, msgpackHandle).Encode(from); err != nil {
+			return err
+		}
+		return codec.NewDecoderBytes(b, msgpackHandle).Decode(to)
+	}
+
+	// errors in fields have been made transportable
+	held := map[int]*Error{}
+	dataType := targetValue.Type()
+	if dataType.Kind() == reflect.Ptr {
+		dataType = dataType.Elem()
+	}
+	if values, ok := data.(map[string]interface{}); ok && dataType.Kind() == reflect.Struct {
+		others := make(map[string]interface{}, len(values))
+		for key, value := range values {
+			others[key] = value
+		}
+		for key, i := range errorFields(dataType) {
+			if value, ok := values[key]; ok && value != nil {
+				var heldErr *Error
+				if err := recode(value, &heldErr); err != nil {
+					return err
+				}
+				held[i] = heldErr
+				delete(others, key)
+			}
+		}
+		data = others
+	}
+	if err := recode(data, target); err != nil {
 		return err
 	}
-	return codec.NewDecoderBytes(b, msgpackHandle).Decode(target)
+	for i, heldErr := range held {
+		reflect.Indirect(targetValue).Field(i).Set(reflect.ValueOf(heldErr))
+	}
+	return nil
 }
 
 // As interface
-- 
2.43.0


From 2cfac174f13a4ef9494523ef470d5c6a74e2278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 38/50] fix: do not panic on the text of transported client and
 http errors

---
 clienterror.go | 9 +++++++++
 httperror.go   | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/clienterror.go b/clienterror.go
index 4610468..f031bcc 100644
--- a/clienterror.go
+++ b/clienterror.go
@@ -10,6 +10,15 @@ func NewClientError(err error) *ClientError {
 	}
 }
 
+// Error interface
+func (e *ClientError) Error() string {
+	if e == nil || e.error == nil {
+		// has been transported, its cause has the text
+		return "client error"
+	}
+	return e.error.Error()
+}
+
 // Unwrap interface
 func (e *ClientError) Unwrap() error {
 	if e != nil && e.error != nil {
diff --git a/httperror.go b/httperror.go
index c3ce8ab..3a998f5 100644
--- a/httperror.go
+++ b/httperror.go
@@ -20,5 +20,9 @@ func NewHTTPError(msg string, code int) *HTTPError {
 }
 
 func (e *HTTPError) Error() string {
+	if e.error == nil {
+		// has been transported
+		return fmt.Sprintf("[%d] %s", e.StatusCode, e.Body)
+	}
 	return fmt.Sprintf("[%d] %s", e.StatusCode, e.error.Error())
 }
-- 
2.43.0


From 981a653fa92b8a1dccbf6b1cb4b379b590ed5334 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 39/50] fix: parameters without a name or called _ made the
 generated code invalid, and gorpc lost those with names which can not be
 exported

Unnamed and blank parameters get the names arg0, arg1, ..., blank results are treated
like unnamed ones. The fields of the gorpc request and response for names like _id
were unexported, so that gob did not send them.
---
 go.go            | 21 +++++++++++++++------
 servicereader.go | 37 +++++++++++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/go.go b/go.go
index f929008..5494e8b 100644
--- a/go.go
+++ b/go.go
@@ -2,6 +2,7 @@ package gotsrpc
 
 import (
 	"fmt"
+	"go/token"
 	"sort"
 	"strings"
 
@@ -57,6 +58,14 @@ func ucfirst(str string) string {
 	return strfirst(str, strings.ToUpper)
 }
 
+// goFieldName is the name of the field for a parameter or result, which has to be exported to be transported
+func goFieldName(name string) string {
+	if fieldName := ucfirst(name); token.IsExported(fieldName) {
+		return fieldName
+	}
+	return "X" + name
+}
+
 func strfirst(str string, strfunc func(string) string) string {
 	res := ""
 	for i, char := range str {
@@ -502,7 +511,7 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 			// Request type
 			g.l(ucfirst(service.Name+method.Name) + `Request struct {`)
 			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				g.l(ucfirst(a.Name) + ` ` + a.Value.goType(aliases, fullPackageName))
+				g.l(goFieldName(a.Name) + ` ` + a.Value.goType(aliases, fullPackageName))
 			}
 			g.l(`}`)
 			// Response type
@@ -512,7 +521,7 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 				if len(name) == 0 {
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
-				g.l(ucfirst(name) + ` ` + r.Value.goType(aliases, fullPackageName))
+				g.l(goFieldName(name) + ` ` + r.Value.goType(aliases, fullPackageName))
 			}
 			g.l(`}`)
 			g.nl()
@@ -576,7 +585,7 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 				argParams = append(argParams, "nil")
 			}
 			for _, a := range nonHTTPRelatedMethodArgs {
-				argParams = append(argParams, "req."+ucfirst(a.Name))
+				argParams = append(argParams, "req."+goFieldName(a.Name))
 			}
 			names := newGoNames(method, "req", "response")
 			rets := []string{}
@@ -587,7 +596,7 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
 				rets = append(rets, names.of(name))
-				retParams = append(retParams, ucfirst(name)+`: `+names.of(name))
+				retParams = append(retParams, goFieldName(name)+`: `+names.of(name))
 			}
 			g.l(`case "` + service.Name + method.Name + `Request":`)
 			if len(nonHTTPRelatedMethodArgs) > 0 {
@@ -681,7 +690,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 			args := []string{}
 			params := []string{}
 			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				args = append(args, ucfirst(a.Name)+`: `+names.of(a.Name))
+				args = append(args, goFieldName(a.Name)+`: `+names.of(a.Name))
 				params = append(params, names.of(a.Name)+" "+a.Value.goType(aliases, fullPackageName))
 			}
 			rets := []string{}
@@ -691,7 +700,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 				if len(name) == 0 {
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
-				rets = append(rets, "response."+ucfirst(name))
+				rets = append(rets, "response."+goFieldName(name))
 				returns = append(returns, names.of(name)+" "+r.Value.goType(aliases, fullPackageName))
 			}
 			returns = append(returns, "clientErr error")
diff --git a/servicereader.go b/servicereader.go
index 24aae3e..1b76b1e 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -48,8 +48,8 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 
 							service.Methods = append(service.Methods, &Method{
 								Name:   funcDecl.Name.Name,
-								Args:   readFields(funcDecl.Type.Params, fileImports),
-								Return: readFields(funcDecl.Type.Results, fileImports),
+								Args:   nameArgs(readFields(funcDecl.Type.Params, fileImports)),
+								Return: unnameBlanks(readFields(funcDecl.Type.Results, fileImports)),
 							})
 						}
 					}
@@ -78,8 +78,8 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
 										Name:   mname.Name,
-										Args:   readFields(funcDecl.Params, fileImports),
-										Return: readFields(funcDecl.Results, fileImports),
+										Args:   nameArgs(readFields(funcDecl.Params, fileImports)),
+										Return: unnameBlanks(readFields(funcDecl.Results, fileImports)),
 									})
 								}
 							}
@@ -163,6 +163,35 @@ func readFields(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields
 	return
 }
 
+// nameArgs gives names to parameters which have none
+func nameArgs(args []*Field) []*Field {
+	taken := map[string]bool{}
+	for _, arg := range args {
+		taken[arg.Name] = true
+	}
+	for i, arg := range args {
+		if arg.Name == "" || arg.Name == "_" {
+			name := fmt.Sprintf("arg%d", i)
+			for taken[name] {
+				name += "_"
+			}
+			arg.Name = name
+			taken[name] = true
+		}
+	}
+	return args
+}
+
+// unnameBlanks treats blank results like results without a name
+func unnameBlanks(results []*Field) []*Field {
+	for _, result := range results {
+		if result.Name == "_" {
+			result.Name = ""
+		}
+	}
+	return results
+}
+
 func declaresType(pkg *ast.Package, name string) bool {
 	for _, file := range pkg.Files {
 		for _, decl := range file.Decls {
-- 
2.43.0


From 7d392d9e4e47ab606b3118a392889065616ec0bc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 40/50] fix: TypeScript: results of type error and values of
 type rune were rendered as the unknown types error and rune

---
 typereader.go | 2 +-
 typescript.go | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/typereader.go b/typereader.go
index 679c8aa..a0d4596 100644
--- a/typereader.go
+++ b/typereader.go
@@ -131,7 +131,7 @@ func getScalarFromAstIdent(ident *ast.Ident) ScalarType {
 	case "byte":
 		return ScalarTypeByte
 	case "float", "float32", "float64",
-		"int", "int8", "int16", "int32", "int64",
+		"int", "int8", "int16", "int32", "int64", "rune",
 		"uint", "uint8", "uint16", "uint32", "uint64":
 		return ScalarTypeNumber
 	default:
diff --git a/typescript.go b/typescript.go
index 4743334..d3592e3 100644
--- a/typescript.go
+++ b/typescript.go
@@ -132,6 +132,8 @@ func tsTypeFromScalarType(scalarType ScalarType) string {
 		return string(ScalarTypeNumber)
 	case ScalarTypeBool:
 		return "boolean"
+	case "error":
+		return string(ScalarTypeAny)
 	}
 	return string(scalarType)
 }
-- 
2.43.0


From e762878e1f625e4de56c669ab8c670b3b26f5b61 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 41/50] fix: blank results got the same names as other ones
 called ret

---
 servicereader.go | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 1b76b1e..8d9ef25 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -49,7 +49,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 							service.Methods = append(service.Methods, &Method{
 								Name:   funcDecl.Name.Name,
 								Args:   nameArgs(readFields(funcDecl.Type.Params, fileImports)),
-								Return: unnameBlanks(readFields(funcDecl.Type.Results, fileImports)),
+								Return: nameBlankResults(readFields(funcDecl.Type.Results, fileImports)),
 							})
 						}
 					}
@@ -79,7 +79,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 									service.Methods = append(service.Methods, &Method{
 										Name:   mname.Name,
 										Args:   nameArgs(readFields(funcDecl.Params, fileImports)),
-										Return: unnameBlanks(readFields(funcDecl.Results, fileImports)),
+										Return: nameBlankResults(readFields(funcDecl.Results, fileImports)),
 									})
 								}
 							}
@@ -165,33 +165,38 @@ func readFields(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields
 
 // nameArgs gives names to parameters which have none
 func nameArgs(args []*Field) []*Field {
-	taken := map[string]bool{}
-	for _, arg := range args {
-		taken[arg.Name] = true
-	}
 	for i, arg := range args {
 		if arg.Name == "" || arg.Name == "_" {
-			name := fmt.Sprintf("arg%d", i)
-			for taken[name] {
-				name += "_"
-			}
-			arg.Name = name
-			taken[name] = true
+			arg.Name = unusedName(fmt.Sprintf("arg%d", i), args)
 		}
 	}
 	return args
 }
 
-// unnameBlanks treats blank results like results without a name
-func unnameBlanks(results []*Field) []*Field {
-	for _, result := range results {
-		if result.Name == "_" {
-			result.Name = ""
+// nameBlankResults gives those names to blank results, which results without names have
+func nameBlankResults(results []*Field) []*Field {
+	for i, result := range results {
+		if result.Name != "_" {
+			continue
 		}
+		name := "ret"
+		if i > 0 {
+			name = fmt.Sprintf("ret_%d", i)
+		}
+		result.Name = unusedName(name, results)
 	}
 	return results
 }
 
+func unusedName(name string, fields []*Field) string {
+	for _, field := range fields {
+		if field.Name == name {
+			return unusedName(name+"_", fields)
+		}
+	}
+	return name
+}
+
 func declaresType(pkg *ast.Package, name string) bool {
 	for _, file := range pkg.Files {
 		for _, decl := range file.Decls {
-- 
2.43.0


From ae201119daacc72d460e6ca5c825fd2f33eeb1e7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 42/50] fix: names of blank parameters and results clashed with
 the other names of a method

---
 servicereader.go | 65 ++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 8d9ef25..4577d2e 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -46,11 +46,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 
 							trace("	on sth:", ident.Name)
 
-							service.Methods = append(service.Methods, &Method{
-								Name:   funcDecl.Name.Name,
-								Args:   nameArgs(readFields(funcDecl.Type.Params, fileImports)),
-								Return: nameBlankResults(readFields(funcDecl.Type.Results, fileImports)),
-							})
+							service.Methods = append(service.Methods, newMethod(funcDecl.Name.Name, funcDecl.Type, fileImports))
 						}
 					}
 				}
@@ -76,11 +72,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 									mname := fieldDecl.Names[0]
 									trace(" on sth:", mname.Name)
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
-									service.Methods = append(service.Methods, &Method{
-										Name:   mname.Name,
-										Args:   nameArgs(readFields(funcDecl.Params, fileImports)),
-										Return: nameBlankResults(readFields(funcDecl.Results, fileImports)),
-									})
+									service.Methods = append(service.Methods, newMethod(mname.Name, funcDecl, fileImports))
 								}
 							}
 						}
@@ -163,38 +155,41 @@ func readFields(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields
 	return
 }
 
-// nameArgs gives names to parameters which have none
-func nameArgs(args []*Field) []*Field {
-	for i, arg := range args {
-		if arg.Name == "" || arg.Name == "_" {
-			arg.Name = unusedName(fmt.Sprintf("arg%d", i), args)
+// newMethod reads a method, parameters and blank results get names if they have none
+func newMethod(name string, funcType *ast.FuncType, fileImports fileImportSpecMap) *Method {
+	method := &Method{
+		Name:   name,
+		Args:   readFields(funcType.Params, fileImports),
+		Return: readFields(funcType.Results, fileImports),
+	}
+	taken := map[string]bool{}
+	for _, fields := range [][]*Field{method.Args, method.Return} {
+		for _, field := range fields {
+			taken[field.Name] = true
 		}
 	}
-	return args
-}
-
-// nameBlankResults gives those names to blank results, which results without names have
-func nameBlankResults(results []*Field) []*Field {
-	for i, result := range results {
-		if result.Name != "_" {
-			continue
+	setName := func(field *Field, name string) {
+		for taken[name] {
+			name += "_"
 		}
-		name := "ret"
-		if i > 0 {
-			name = fmt.Sprintf("ret_%d", i)
+		field.Name = name
+		taken[name] = true
+	}
+	for i, arg := range method.Args {
+		if arg.Name == "" || arg.Name == "_" {
+			setName(arg, fmt.Sprintf("arg%d", i))
 		}
-		result.Name = unusedName(name, results)
 	}
-	return results
-}
-
-func unusedName(name string, fields []*Field) string {
-	for _, field := range fields {
-		if field.Name == name {
-			return unusedName(name+"_", fields)
+	for i, result := range method.Return {
+		switch {
+		case result.Name != "_":
+		case i == 0:
+			setName(result, "ret")
+		default:
+			setName(result, fmt.Sprintf("ret_%d", i))
 		}
 	}
-	return name
+	return method
 }
 
 func declaresType(pkg *ast.Package, name string) bool {
-- 
2.43.0


From a33a1e9d1bb0ed09afb9a3394e2a7005448043e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 43/50] fix: types declared as rune or any were referred to in
 TypeScript but not exported

---
 servicereader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/servicereader.go b/servicereader.go
index 4577d2e..f4fc5ab 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -277,8 +277,10 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 									constantTypes[spec.Name.Name] = "string"
 								case "bool":
 									constantTypes[spec.Name.Name] = "boolean"
+								case "any":
+									constantTypes[spec.Name.Name] = "any"
 								case "float", "float32", "float64",
-									"int", "int8", "int16", "int32", "int64", "byte",
+									"int", "int8", "int16", "int32", "int64", "byte", "rune",
 									"uint", "uint8", "uint16", "uint32", "uint64":
 									constantTypes[spec.Name.Name] = "number"
 								default:
-- 
2.43.0


From c5ee4a53353b1db9d5599e867a9284e33402bc34 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 44/50] fix: fields whose json tag is "-," were left out in
 TypeScript, although that is a name

---
 typereader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typereader.go b/typereader.go
index a0d4596..22e52be 100644
--- a/typereader.go
+++ b/typereader.go
@@ -84,7 +84,10 @@ func extractJSONInfo(tag string) *JSONInfo {
 		case "":
 			// do nothing
 		case "-":
-			ignore = true
+			// with options it is a name
+			if ignore = len(jsonTags) == 1; !ignore {
+				name = jsonTags[0]
+			}
 		default:
 			name = jsonTags[0]
 		}
-- 
2.43.0


From 08c8646302c89eaa23c336279f1b4ec95288208c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 45/50] fix: TypeScript types of gotsrpc tags were cut off at
 their first comma

---
 typereader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/typereader.go b/typereader.go
index 22e52be..a678903 100644
--- a/typereader.go
+++ b/typereader.go
@@ -70,6 +70,12 @@ func extractJSONInfo(tag string) *JSONInfo {
 	}
 	for k, value := range gotsrpcTags {
 		gotsrpcTags[k] = strings.TrimSpace(value)
+		if strings.HasPrefix(gotsrpcTags[k], "type:") {
+			// the rest is the type, which may contain commas
+			gotsrpcTags[k] = strings.TrimSpace(strings.Join(gotsrpcTags[k:], ","))
+			gotsrpcTags = gotsrpcTags[:k+1]
+			break
+		}
 	}
 
 	name := ""
-- 
2.43.0


From 53a829989b2137b60a89283caac64c3ec010e0ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 46/50] fix: unions of structs from other files or packages
 were rendered like unions of enums in TypeScript

---
 typescript.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index d3592e3..a1aafc1 100644
--- a/typescript.go
+++ b/typescript.go
@@ -111,6 +111,14 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	}
 }
 
+// isStruct tells whether the type is a struct, those from other files are read like scalars
+func (v *Value) isStruct(structs map[string]*Struct) bool {
+	if v.Scalar != nil {
+		return structs[v.Scalar.FullName()] != nil
+	}
+	return v.StructType != nil
+}
+
 // isBytes tells whether the elements are bytes, json transports these as base64
 func (a *Array) isBytes() bool {
 	return !a.Value.IsPtr && (a.Value.GoScalarType == "byte" || a.Value.GoScalarType == "uint8")
@@ -180,7 +188,7 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 			return errors.New("no fields or inline fields are supported when using union")
 		}
 		switch {
-		case str.UnionFields[0].Value.StructType != nil:
+		case str.UnionFields[0].Value.isStruct(structs):
 			ts.app("export type " + str.Name + " = ")
 			var isUndefined bool
 			for i, unionField := range str.UnionFields {
-- 
2.43.0


From 90477b06373c16895e9a55519ee02a226f125a59 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 47/50] fix: names which begin with a letter outside of ASCII
 were exposed or left out regardless of whether they are exported

---
 servicereader.go | 3 +--
 typereader.go    | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index f4fc5ab..b9b96cd 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -38,8 +38,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 					if starExpr, ok := firstReceiverField.Type.(*ast.StarExpr); ok {
 						if ident, ok := starExpr.X.(*ast.Ident); ok {
 							service, ok := findService(ident.Name)
-							firstCharOfMethodName := funcDecl.Name.Name[0:1]
-							if !ok || strings.ToLower(firstCharOfMethodName) == firstCharOfMethodName {
+							if !ok || !funcDecl.Name.IsExported() {
 								// skip this method
 								continue
 							}
diff --git a/typereader.go b/typereader.go
index a678903..2bd57f8 100644
--- a/typereader.go
+++ b/typereader.go
@@ -174,7 +174,7 @@ func readAstType(v *Value, fieldIdent *ast.Ident, fileImports fileImportSpecMap,
 			Name:    structType,
 			Package: fileImports.getPackagePath(packageName),
 		}
-	} else if fieldIdent.Name[:1] == strings.ToUpper(fieldIdent.Name[:1]) {
+	} else if fieldIdent.IsExported() {
 		v.Scalar = &Scalar{
 			Package: fileImports.getPackagePath(packageName),
 			Name:    fieldIdent.Name,
@@ -353,8 +353,7 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 						})
 						continue
 					}
-				} else if strings.Compare(strings.ToLower(name[:1]), name[:1]) == 0 {
-					// this is not unicode proof
+				} else if !ast.IsExported(name) {
 					continue
 				} else if jsonInfo != nil && jsonInfo.Union {
 					unionFields = append(unionFields, &Field{
-- 
2.43.0


From 1caa778ea3f980166bf6f91b7962a3d0b9c1662b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 48/50] fix: files which are not part of a package for go
 because of their names or build constraints were read

---
 gotsrpc.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index a048728..fec2445 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"io"
@@ -158,8 +159,15 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 	return nil
 }
 
-func parserExcludeFiles(info os.FileInfo) bool {
-	return !strings.HasSuffix(info.Name(), "_test.go")
+// parserExcludeFiles returns a filter for the files of a package, like go it ignores those whose name or build constraints exclude them
+func parserExcludeFiles(dir string) func(info os.FileInfo) bool {
+	return func(info os.FileInfo) bool {
+		if strings.HasSuffix(info.Name(), "_test.go") {
+			return false
+		}
+		match, err := build.Default.MatchFile(dir, info.Name())
+		return match || err != nil
+	}
 }
 
 // inModule tells if a package belongs to a module by its path
@@ -268,7 +276,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 			continue
 		}
 		fset := token.NewFileSet()
-		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, mode)
+		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles(dir), mode)
 		if err != nil {
 			return nil, nil, err
 		}
-- 
2.43.0


From 5b17ccd114b5b9d083cdb9801a44dee3d839d000 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 49/50] fix: a map with a key of a type which is not supported
 made the generator panic

---
 typereader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typereader.go b/typereader.go
index 2bd57f8..aa88af9 100644
--- a/typereader.go
+++ b/typereader.go
@@ -218,6 +218,7 @@ func readAstMapType(m *Map, mapType *ast.MapType, fileImports fileImportSpecMap)
 		m.Key = &Value{}
 		readAstSelectorExpr(m.Key, keyType, fileImports)
 	default:
+		m.Key = &Value{}
 		// todo: implement support for "*ast.Scalar" type (sca)
 		// this is important for scalar types in map keys
 		// Example:
-- 
2.43.0


From adfbc0686beba17adbe42bb7153ebf33918e7c79 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 50/50] fix: encode union members which are structs of a single
 pointer

The codec mistakes the pointee for the struct, so that with omitempty the
pointer was dropped: a union whose member is struct{P *T} was sent as {}.
---
 unionext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unionext.go b/unionext.go
index 3f39bb5..aa1c638 100644
--- a/unionext.go
+++ b/unionext.go
@@ -31,7 +31,7 @@ func (x *UnionExt) ConvertExt(v interface{}) interface{} {
 	}
 	for i := 0; i < val.NumField(); i++ {
 		if field := val.Field(i); !field.IsZero() {
-			return field.Interface()
+			return pointersToStructs([]interface{}{field.Interface()})[0]
 		}
 	}
 	return nil
-- 
2.43.0

