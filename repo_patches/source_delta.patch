From fa37dcb4a76ce83cef34fa5c968e15fb37337445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 01/41] fix: make the errors created by errorsWithData satisfy
 IncomparableMaker

MakeErrorIncomparable and its variants could not be applied to any error this
package creates: neither Is nor CanMakeIncomparable was implemented, although
IncomparableMaker is documented as a sub-interface of ErrorWithData_any.
Package fieldElements did not compile because of this.
---
 bandersnatch/errorsWithData/errorsWithData.go     |  1 +
 .../errorsWithData/plainErrorWithParams.go        | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/bandersnatch/errorsWithData/errorsWithData.go b/bandersnatch/errorsWithData/errorsWithData.go
index dedb740..9dd8f68 100644
--- a/bandersnatch/errorsWithData/errorsWithData.go
+++ b/bandersnatch/errorsWithData/errorsWithData.go
@@ -255,6 +255,7 @@ const (
 // Either way, we do NOT require the caller to follow the error chain.
 type ErrorWithData_any interface {
 	error // i.e. provides an Error() string method
+	IncomparableMaker
 	// Error_interpolate is an extended version of Error() that additionally takes a map of parameters. This is required to make any $foo (as opposed to %foo) interpolation work.
 	Error_interpolate(ParamMap) string
 	// GetParameter obtains the value stored under the given parameterName and whether it was present. Returns (nil, false) if not.
diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index b8bf691..81a17eb 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -86,6 +86,21 @@ func (e *errorWithParameters_common) Unwrap() error {
 	return e.wrapped_error
 }
 
+// Is is provided to satisfy the [IncomparableMaker] interface.
+// It makes [errors.Is] not distinguish between an error and its boxed incomparable version.
+func (e *errorWithParameters_common) Is(target error) bool {
+	return error(e) == UnboxError(target)
+}
+
+// Is is provided to satisfy the [IncomparableMaker] interface.
+// This must not be promoted from the embedded struct, since that would compare a pointer to the embedded struct.
+func (e *errorWithParameters_T[StructType]) Is(target error) bool {
+	return error(e) == UnboxError(target)
+}
+
+// CanMakeIncomparable is provided to satisfy the [IncomparableMaker] interface.
+func (e *errorWithParameters_common) CanMakeIncomparable() {}
+
 // GetData_struct is provided to satisfy ErrorWithParameters[StructType].
 //
 // It constructs a value of type StructType from the provided parameters.
-- 
2.43.0


From 63af192cca88a3c721f8d9be5d78cc6ecc4b1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 02/41] fix: adapt bandersnatchErrors, errorTransform,
 fieldElements, curvePoints to the errorsWithData API

The calls lacked the PreviousDataTreatment / MissingDataTreatment arguments, so
these packages (and everything importing them) did not compile.
---
 bandersnatch/bandersnatchErrors/serializer_errors.go |  2 +-
 bandersnatch/curvePoints/serializer_curve_field.go   | 12 ++++++------
 bandersnatch/fieldElements/field_element_bigInt.go   |  4 ++--
 .../fieldElements/field_element_montgomery.go        |  4 ++--
 internal/errorTransform/error_transform.go           |  4 ++--
 internal/errorTransform/serializer_errors.go         |  2 +-
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/bandersnatch/bandersnatchErrors/serializer_errors.go b/bandersnatch/bandersnatchErrors/serializer_errors.go
index 59b0aa6..79ddbc9 100644
--- a/bandersnatch/bandersnatchErrors/serializer_errors.go
+++ b/bandersnatch/bandersnatchErrors/serializer_errors.go
@@ -94,5 +94,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 9046265..2c13aca 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -95,10 +95,10 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 			// The type of error depends on whether denom is a square or not.
 			num.DivideEq(&denom)
 			if y.SquareRoot(&num) {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 
 			} else {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 				y.SetZero() // not needed, but we like being explicit.
 			}
 			return
@@ -107,7 +107,7 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 	}
 	num.DivideEq(&denom) // (1-ax^2)/(1-dx^2). Note that 1-dx^2 cannot be 0, as d is a non-square.
 	if !y.SquareRoot(&num) {
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 		return
 	}
 	err = nil // err is nil at this point anyway, but we prefer to be explicit.
@@ -270,7 +270,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	point.y, errWithX = recoverYFromXAffine(x, false)
 
 	if errWithX != nil {
-		err = errorsWithData.AddDataToError_params[retData](errWithX, "%w", "SignY", signY)
+		err = errorsWithData.AddDataToError_params[retData](errWithX, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignY", signY)
 		// On trusted input, we panic on error.
 		if trustLevel.Bool() {
 			panic(fmt.Errorf(ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full encountered error on trusted input. Error was %w", err))
@@ -429,7 +429,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	point.x, errFromRecoverX = recoverXFromYAffine(y)
 	if errFromRecoverX != nil {
 		err = errorsWithData.NewErrorWithData_params[errData](errFromRecoverX, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromYAndSignX_full: %w, signX = %v{SignX}",
-			"SignX", signX)
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignX", signX)
 		if trustLevel.Bool() {
 			panic(err)
 		}
@@ -514,7 +514,7 @@ func CurvePointFromXTimesSignY_subgroup(xSignY *FieldElement, trustLevel IsInput
 	point.y, err = recoverYFromXAffine(xSignY, !trustLevel.Bool())
 	if err != nil {
 		// update error message.
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|")
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 		point = Point_axtw_subgroup{}
 		if trustLevel.Bool() {
 			panic(err)
diff --git a/bandersnatch/fieldElements/field_element_bigInt.go b/bandersnatch/fieldElements/field_element_bigInt.go
index 303fabe..aa763de 100644
--- a/bandersnatch/fieldElements/field_element_bigInt.go
+++ b/bandersnatch/fieldElements/field_element_bigInt.go
@@ -136,7 +136,7 @@ func (z *bsFieldElement_BigInt) SetInt64(x int64) {
 func (z *bsFieldElement_BigInt) ToUint64() (uint64, error) {
 	zInt := z.ToBigInt()
 	if !zInt.IsUint64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	}
 	return zInt.Uint64(), nil
 }
@@ -153,7 +153,7 @@ func (z *bsFieldElement_BigInt) ToInt64() (int64, error) {
 		zInt.Neg(zInt)
 	}
 	if !zInt.IsInt64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	} else {
 		return zInt.Int64(), nil
 	}
diff --git a/bandersnatch/fieldElements/field_element_montgomery.go b/bandersnatch/fieldElements/field_element_montgomery.go
index b2cdc67..117511e 100644
--- a/bandersnatch/fieldElements/field_element_montgomery.go
+++ b/bandersnatch/fieldElements/field_element_montgomery.go
@@ -254,7 +254,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToUint64() (result uint64, err erro
 	result = temp[0]
 	if (temp[1] | temp[2] | temp[3]) != 0 {
 		// err = ErrCannotRepresentAsUint64
-		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", "FieldElement", *z)
+		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 		result = 0
 	}
 	return
@@ -317,7 +317,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToInt64() (result int64, err error)
 		return
 	}
 	zCopy := *z // to avoid z escaping to the heap. Now only zCopy escapes, but this is only allocated conditionally in the first place.
-	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", zCopy)
+	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", zCopy)
 
 	result = 0 // no-op, but stated for clarity.
 	return
diff --git a/internal/errorTransform/error_transform.go b/internal/errorTransform/error_transform.go
index b37f565..39a8b64 100644
--- a/internal/errorTransform/error_transform.go
+++ b/internal/errorTransform/error_transform.go
@@ -23,7 +23,7 @@ func UnexpectEOF(errPtr *error) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
 		if len(m) > 0 {
-			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", m)
+			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, m)
 		} else {
 			*errPtr = io.ErrUnexpectedEOF
 		}
@@ -34,6 +34,6 @@ func UnexpectEOF(errPtr *error) {
 func UnexpectEOF2[StructType any](errPtr *errorsWithData.ErrorWithData[StructType]) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
-		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", m)
+		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, m)
 	}
 }
diff --git a/internal/errorTransform/serializer_errors.go b/internal/errorTransform/serializer_errors.go
index 23d260b..f10016f 100644
--- a/internal/errorTransform/serializer_errors.go
+++ b/internal/errorTransform/serializer_errors.go
@@ -83,5 +83,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
-- 
2.43.0


From 20f86aba1ccdde2b9e39b8bd4e79563c762ec15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 03/41] fix: adapt pointserializer to the errorsWithData API
 and the IoError data field

The package did not compile: calls lacked the PreviousDataTreatment /
MissingDataTreatment arguments, field name constants had moved to errorconsts,
and headerRead no longer extended ReadErrorData.
---
 .../pointserializer/headerSerializer.go       | 18 ++++++---
 .../pointserializer/serialize_curve_point.go  | 30 +++++++-------
 .../pointserializer/serialize_curve_points.go | 39 ++++++++++---------
 bandersnatch/pointserializer/utils.go         | 17 ++++----
 .../pointserializer/values_serializers.go     |  4 +-
 5 files changed, 60 insertions(+), 48 deletions(-)

diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index 85f2b85..c272876 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -290,7 +290,7 @@ func (shd *simpleHeaderDeserializer) GetGlobalSliceHeader() []byte {
 func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reader) (bytesRead int, size int32, err bandersnatchErrors.DeserializationError) {
 	bytesRead, errCER := consumeExpectRead(input, shd.headerSlice[:])
 	if errCER != nil {
-		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errCER, FIELDNAME_PARTIAL_READ, bytesRead != 0)
+		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errCER, errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, bytesRead != 0)
 		return
 	}
 	var buf [simpleHeaderSliceLengthOverhead]byte
@@ -298,7 +298,7 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 	bytesRead += bytesJustRead // Validate ensures this fits into int32
 	if errPlain != nil {
 		errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF
-		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain,
+		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain, errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
 			FIELDNAME_ACTUALLY_READ, buf[:],
 			FIELDNAME_BYTES_READ, bytesJustRead,
@@ -308,7 +308,7 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 
 	var sizeUInt32 uint32 = shd.sliceSizeEndianness.Uint32(buf[:])
 	if sizeUInt32 > math.MaxInt32 {
-		errPlain = errorsWithData.NewErrorWithData_any_params(bandersnatchErrors.ErrSizeDoesNotFitInt32, "%w. Size read when deserializing was %v{Size}",
+		errPlain = errorsWithData.NewErrorWithData_any_params(bandersnatchErrors.ErrSizeDoesNotFitInt32, "%w. Size read when deserializing was %v{Size}", errorsWithData.ReplacePreviousData,
 			"Size", sizeUInt32)
 		err = errorsWithData.NewErrorWithData_struct(errPlain, "%w", &bandersnatchErrors.ReadErrorData{
 			PartialRead:  false,
@@ -368,7 +368,15 @@ func (shd *simpleHeaderDeserializer) GetGlobalSliceFooter() []byte {
 // addPartialReadInfo is a helper function that just "downcasts" the extra data type for the error.
 // This is because consumeExpectRead returns headerRead as additional data, which also contains ExpectedToRead.
 func fixReadErrorType(errIn errorsWithData.ErrorWithData[headerRead]) (errOut bandersnatchErrors.DeserializationError) {
-	return errorsWithData.AsErrorWithData[bandersnatchErrors.ReadErrorData](errIn)
+	if errIn == nil {
+		return nil
+	}
+	errOut, ok := errorsWithData.AsErrorWithData[bandersnatchErrors.ReadErrorData](errIn, errorsWithData.EnsureDataIsPresent)
+	if !ok {
+		// unreachable: headerRead extends ReadErrorData (this is checked on startup)
+		panic(errOut)
+	}
+	return
 }
 
 // deserializeGlobalSliceFooter reads from input and consumes the global slice footer
@@ -501,7 +509,7 @@ func (shd *simpleHeaderDeserializer) MultiPointHeaderOverhead(numPoints int32) (
 	ret64 += int64(len(shd.headerSlice) + len(shd.footerSlice))                                 // term added is guaranteed to fit into int32
 	// NOTE: ret64 is guaranteed to not have overflown an int64, since it is at most (2^31-1) * (2^31-1) + 4 + (2^31-1), which is smaller than 2^63-1
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, "MultiPointOverhead does not fit into int32, size was %v{Size}",
+		err = errorsWithData.NewErrorWithData_any_params(nil, "MultiPointOverhead does not fit into int32, size was %v{Size}", errorsWithData.ReplacePreviousData,
 			"Size", ret64)
 	}
 	ret = int32(ret64)
diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 6af6811..7a5c752 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -539,7 +539,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 	if err != nil {
 		if bytesRead > 0 {
 			errorTransform.UnexpectEOF2(&err) // not really doing anything, since bytesRead > 0 contradicts err is EOF.
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 		return
 	}
@@ -558,7 +558,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 		// So assume the footer is trivial. If err does not alreay contain the partial read_flag, bytesJustRead is either 0 or everything was read.
 		// In the latter case, we really have no partial read; if bytesJustRead, we have a partial read situation if there was a header.
 		if (bytesJustRead == 0 && bytesRead > 0) || (!md.headerDeserializer.trivialSinglePointFooter() && bytesRead > 0) {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 		return
 	}
@@ -567,7 +567,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 	if err != nil {
 		errorTransform.UnexpectEOF2(&err)
 		if bytesJustRead == 0 {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 		// outputPoint.SetFrom(originalPoint)
 	}
@@ -583,7 +583,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 	if err != nil {
 		if bytesRead > 0 {
 			errorTransform.UnexpectEOF2(&err) // not really doing anything, since bytesRead > 0 contradicts err is EOF.
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 
 		return
@@ -604,7 +604,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 		// So assume the footer is trivial. If err does not alreay contain the partial read_flag, bytesJustRead is either 0 or everything was read.
 		// In the latter case, we really have no partial read; if bytesJustRead, we have a partial read situation if there was a header.
 		if (bytesJustRead == 0 && bytesRead > 0) || (!md.headerSerializer.trivialSinglePointFooter() && bytesRead > 0) {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 
 		return
@@ -614,7 +614,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 	if err != nil {
 		errorTransform.UnexpectEOF2(&err)
 		if bytesJustRead == 0 {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, true)
 		}
 		// outputPoint.SetFrom(originalPoint)
 	}
@@ -628,7 +628,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 {
 			errorTransform.UnexpectEOF2(&err) // does nothing, actually, because err cannot be EOF for bytesWritten > 0
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_WRITE, true)
 		}
 		return
 	}
@@ -637,7 +637,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 && bytesWritten < int(md.OutputLength()) {
 			errorTransform.UnexpectEOF2(&err)
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_WRITE, true)
 		}
 		return
 	}
@@ -646,7 +646,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 && bytesWritten < int(md.OutputLength()) {
 			errorTransform.UnexpectEOF2(&err)
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_WRITE, true)
 		}
 	}
 	return
@@ -740,18 +740,18 @@ func (md *multiDeserializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 		}
 		return -1, err // we return -1 for the int32 in case of error here, as the actual value is meaningless. Note that that overhead might well be negative at this point anyway.
 
 	}
 	var ret64 int64 = int64(overhead) + pointCost64 // Cannot overflow, because it is bounded by MaxInt32^2 + MaxInt32
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", "Size", ret64)
+		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", errorsWithData.ReplacePreviousData, "Size", ret64)
 		return -1, err
 	}
 	return int32(ret64), nil
@@ -774,11 +774,11 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 		}
 		return -1, err
 
@@ -786,7 +786,7 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 	var ret64 int64 = int64(overhead) + pointCost64 // Cannot overflow, because it is bounded by MaxInt32^2 + MaxInt32
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", "Size", ret64)
+		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", errorsWithData.ReplacePreviousData, "Size", ret64)
 		return -1, err
 	}
 	return int32(ret64), nil
diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index ff2c44d..73b63e1 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -11,6 +11,7 @@ import (
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
 	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
+	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
 	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
 )
 
@@ -96,7 +97,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.R
 			}
 
 			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", "PointsDeserialized", i)
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, "PointsDeserialized", i)
 			return
 		}
 	}
@@ -142,7 +143,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.Rea
 
 			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle,
-				ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w",
+				ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsDeserialized", i)
 			return
 		}
@@ -195,7 +196,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w",
+				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsDeserialized", i,
 				FIELDNAME_PARTIAL_READ, true)
 			return
@@ -206,12 +207,12 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		if errNonBatch != nil {
 			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w",
+					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 					"PointsDeserialized", i,
 					FIELDNAME_PARTIAL_READ, true)
 			} else {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w",
+					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 					"PointsDeserialized", i)
 			}
 			return
@@ -220,7 +221,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointFooter(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
 			return
 		}
 	}
@@ -252,7 +253,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 
 	// If reading the slice header fails, bail out
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
 
 		output, _, _ = sliceMaker(-1) // create a dummy value for output
 		return
@@ -290,7 +291,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	bytesJustRead, errNonBatch = md.headerDeserializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", FIELDNAME_POINTSDESERIALIZED, int(size))
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
 
@@ -319,7 +320,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 
 	bytesRead, size, errNonBatch = md.headerSerializer.deserializeGlobalSliceHeader(inputStream)
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
 
 		output, _, _ = sliceMaker(-1)
 		return
@@ -351,7 +352,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	bytesJustRead, errNonBatch = md.headerSerializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", FIELDNAME_POINTSDESERIALIZED, int(size))
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
 
@@ -415,13 +416,13 @@ func UseExistingSlice[PointType any, PointTypePtr interface {
 			// The error message depends on whether the capacity is too small as well.
 			if cap(existingSlice) < int(length) {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](ErrInsufficientBufferForDeserialization,
-					"%w: in UseExistingSlice, The length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}",
+					"%w: in UseExistingSlice, The length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 					"BufferSize", targetSliceLen,
 					"ReadSliceLen", int(length),
 					"BufferCapacity", cap(existingSlice))
 			} else {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](ErrInsufficientBufferForDeserialization,
-					"%w: in UseExistingSlice, the length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}. Note that the given buffer would have had sufficient capacity %v{BufferCapacity}",
+					"%w: in UseExistingSlice, the length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}. Note that the given buffer would have had sufficient capacity %v{BufferCapacity}", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 					"BufferSize", targetSliceLen,
 					"ReadSliceLen", int(length),
 					"BufferCapacity", cap(existingSlice))
@@ -470,7 +471,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoints(outputStream io.Writ
 				errorTransform.UnexpectEOF2(&errSingle)
 			}
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errSingle,
-				ErrorPrefix+"batch serialization failed after deserializing %{PointsSerialized} many points with error %w",
+				ErrorPrefix+"batch serialization failed after deserializing %{PointsSerialized} many points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsSerialized", i)
 			return
 		}
@@ -491,7 +492,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	expectedSize, errOverflow := md.SliceOutputLength(L)
 	if errOverflow != nil {
 		// var noWriteAttempt :=
-		overflowErrData := BatchSerializationErrorData{WriteErrorData: bandersnatchErrors.NoWriteAttempt, PointsSerialized: 0}
+		overflowErrData := BatchSerializationErrorData{WriteErrorData: errorconsts.NoWriteAttempt, PointsSerialized: 0}
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrSizeDoesNotFitInt32, ErrorPrefix+"called SerializeSlice with a slice that would require more than MaxInt32 bytes to serialize", &overflowErrData)
 		return
 	}
@@ -501,7 +502,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	bytesWritten += bytesJustWritten
 	if errHeader != nil {
 		err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errHeader,
-			ErrorPrefix+"failed to write slice header. Error was %w",
+			ErrorPrefix+"failed to write slice header. Error was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			"PointsSerialized", 0,
 			"PartialWrite", bytesWritten != 0)
 		return
@@ -522,7 +523,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsSerialized", i,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -533,7 +534,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsSerialized", i,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -544,7 +545,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsSerialized", i+1,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -556,7 +557,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	bytesWritten += bytesJustWritten
 	if errNonBatch != nil {
 		err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-			ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+			ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			"PointsSerialized", LInt, // Note: PointsSerialized needs type int, not int32
 			FIELDNAME_PARTIAL_WRITE, true)
 		return
diff --git a/bandersnatch/pointserializer/utils.go b/bandersnatch/pointserializer/utils.go
index 526a0c1..f79788b 100644
--- a/bandersnatch/pointserializer/utils.go
+++ b/bandersnatch/pointserializer/utils.go
@@ -9,12 +9,13 @@ import (
 
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
+	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
 )
 
-const FIELDNAME_PARTIAL_READ = bandersnatchErrors.FIELDNAME_PARTIAL_READ
-const FIELDNAME_PARTIAL_WRITE = bandersnatchErrors.FIELDNAME_PARTIAL_WRITE
-const FIELDNAME_ACTUALLY_READ = bandersnatchErrors.FIELDNAME_ACTUALLY_READ
-const FIELDNAME_BYTES_READ = bandersnatchErrors.FIELDNAME_BYTES_READ
+const FIELDNAME_PARTIAL_READ = errorconsts.FIELDNAME_PARTIAL_READ
+const FIELDNAME_PARTIAL_WRITE = errorconsts.FIELDNAME_PARTIAL_WRITE
+const FIELDNAME_ACTUALLY_READ = errorconsts.FIELDNAME_ACTUALLY_READ
+const FIELDNAME_BYTES_READ = errorconsts.FIELDNAME_BYTES_READ
 
 // additional data contained in errors returned by consumeExpectRead. Note that this "extends" bandersnatchErrors.ReadErrorData
 type headerRead struct {
@@ -22,6 +23,7 @@ type headerRead struct {
 	ActuallyRead   []byte
 	ExpectedToRead []byte
 	BytesRead      int
+	IoError        bool
 }
 
 func init() {
@@ -92,7 +94,7 @@ func consumeExpectRead(input io.Reader, expectToRead []byte) (bytes_read int, re
 		buf = buf[0:bytes_read:bytes_read] // We reduce the cap, so maybe some future version of Go actually frees the trailing memory. (We *could* copy it to a new buffer, but that's probably worse in most cases)
 
 		// Note: We deep-copy the contents of expectToRead. The reason is that the caller might later modify the backing array otherwise.
-		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read} // extra data returned in error
+		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read, IoError: true} // extra data returned in error
 
 		if errors.Is(err, io.ErrUnexpectedEOF) {
 			// Note: Sprintf is only used for the length of the expected input. The other %%v{arg} are done via errorsWithData, hence escaping the %.
@@ -170,10 +172,11 @@ func writeFull(output io.Writer, data []byte) (bytesWritten int, err bandersnatc
 
 	bytesWritten, errPlain := output.Write(data)
 	if errPlain != nil {
-		err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](errPlain, ErrorPrefix+"An error occured when trying to write %v{Data} to io.Writer. We only wrote %v{BytesWritten} data. The error was:\n%w",
+		err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](errPlain, ErrorPrefix+"An error occured when trying to write %v{Data} to io.Writer. We only wrote %v{BytesWritten} data. The error was:\n%w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			"Data", copyByteSlice(data),
-			bandersnatchErrors.FIELDNAME_BYTES_WRITTEN, bytesWritten,
+			errorconsts.FIELDNAME_BYTES_WRITTEN, bytesWritten,
 			FIELDNAME_PARTIAL_WRITE, bytesWritten != 0 && bytesWritten < len(data),
+			errorconsts.FIELDNAME_IO_ERROR, true,
 		)
 	} // else err == nil
 	return
diff --git a/bandersnatch/pointserializer/values_serializers.go b/bandersnatch/pointserializer/values_serializers.go
index 4374426..9eb31b6 100644
--- a/bandersnatch/pointserializer/values_serializers.go
+++ b/bandersnatch/pointserializer/values_serializers.go
@@ -72,7 +72,7 @@ type valuesSerializer interface {
 func updateReadError(errPtr *bandersnatchErrors.DeserializationError, bytesReadPtr *int, expectToRead int) {
 	if *errPtr != nil {
 		var bytesRead int = *bytesReadPtr
-		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](*errPtr,
+		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](*errPtr, errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			FIELDNAME_PARTIAL_READ, bytesRead != 0 && bytesRead != expectToRead,
 			// NOTE: We do not update the "BytesRead" metadata in the error. This is intentional: "BytesRead" refers to the failing sub-call.
 		)
@@ -85,7 +85,7 @@ func updateReadError(errPtr *bandersnatchErrors.DeserializationError, bytesReadP
 func updateWriteError(errPtr *bandersnatchErrors.SerializationError, bytesWrittenPtr *int, expectToWrite int) {
 	if *errPtr != nil {
 		var bytesWritten int = *bytesWrittenPtr
-		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.WriteErrorData](*errPtr,
+		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.WriteErrorData](*errPtr, errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			FIELDNAME_PARTIAL_WRITE, (bytesWritten != 0) && (bytesWritten != expectToWrite),
 			// NOTE: We do not update the "BytesWritten" metadata in the error. This is intentional: "BytesWritten" refers to the failing sub-call.
 		)
-- 
2.43.0


From ee26ee04e7fcbc5fcc06ebca37fff033417e5636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 04/41] fix: terminate all nested conditions after a parse
 error in an interpolation string

---
 bandersnatch/errorsWithData/formatting_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_parse.go b/bandersnatch/errorsWithData/formatting_parse.go
index d5fe6c7..a79913e 100644
--- a/bandersnatch/errorsWithData/formatting_parse.go
+++ b/bandersnatch/errorsWithData/formatting_parse.go
@@ -777,7 +777,7 @@ func make_ast(tokens tokenList) (ret ast_root, err error) {
 		// nodes of types ast_condPercent and ast_condDollar and causes
 		// the condition to be ignored, so the conditional interpolation is always evaluated.
 		// This is mostly to ensure that diagnostic is not hidden.
-		for i := 0; i < (stack.Len()/2)-1; i++ {
+		for stack.Len() > 2 {
 			_ = stack.Pop().(ast_list)
 			condNode := stack.Pop().(ast_cond)
 			condition := condNode.get_condition()
-- 
2.43.0


From f339361736d3262052a31bcd3e72cf6c3ed8d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 05/41] fix: syntax-check the contents of conditionals in
 interpolation strings

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index d4fcbfc..4b7319c 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -202,15 +202,20 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 // It checks that the strings given as format verbs, conditions, variable names satisfy specific constraints
 // and ensures that errors are handled correctly later.
 //
-// For ast_cond, we just flag the conditional as invalid on failure.
+// For ast_cond, we flag the conditional as invalid if the condition is not recognized and process the child.
 func (abase *base_ast_condition) handleSyntaxConditions() error {
+	// Always process the child, even if the condition is invalid.
+	childErr := abase.child.handleSyntaxConditions()
+	if childErr != nil {
+		// make_invalid(1) causes Interpolate to display the child unconditionally, so the diagnostics contained in it are not hidden.
+		abase.make_invalid(1)
+	}
 	if !validConditionString(abase.condition) {
 		// make_invalid(3) causes Interpolate to display children unconditionally && display an error message containing the condition.
 		abase.make_invalid(3)
 		return fmt.Errorf(ErrorPrefix+"invalid condition string: %s", abase.condition)
-	} else {
-		return nil
 	}
+	return childErr
 }
 
 /**
-- 
2.43.0


From 12483efb82f4481b6ee510f3e1abe329c2bb3dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 06/41] fix: report the offending format verb in the
 diagnostics for verbs containing %

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 4b7319c..111cfa9 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -178,7 +178,7 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 	}
 
 	if strings.ContainsRune(abase.formatString, '%') {
-		abase.errorString = fmt.Errorf(`<!Format Verb %s for %s contains %%>`+abase.formatString, abase.variableName)
+		abase.errorString = fmt.Errorf(`<!Format Verb %s for %s contains %%>`, abase.formatString, abase.variableName)
 		return fmt.Errorf(ErrorPrefix+`Interpolation string contains a format string verb %s, which contains  '%%'. This will not work with the fmt package`, abase.formatString)
 	}
 
@@ -190,7 +190,7 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 			return fmt.Errorf(ErrorPrefix+"Variable name %s in interpolation string starting with %s is not recognized by the language", abase.variableName, string(specialVariableNameIndicator))
 		}
 	} else if !ValidInterpolationName(abase.variableName) {
-		abase.errorString = fmt.Errorf(`<!Variable name %s not allowed by the language`, abase.variableName)
+		abase.errorString = fmt.Errorf(`<!Variable name %s not allowed by the language>`, abase.variableName)
 		return fmt.Errorf(ErrorPrefix+"Variable name %s is not allowed by the language", abase.variableName)
 	}
 
-- 
2.43.0


From 429f026f92d9d78a3bd19db2cd4bf8cca3d957fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 07/41] fix: accept the map selectors when validating the
 parameters of an interpolation string

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 111cfa9..2d1042b 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -349,11 +349,16 @@ func (a ast_string) VerifyParameters_passed(ParamMap, ParamMap, error) error {
 	return nil
 }
 
+// refersToMap returns whether the variable name is one of the special strings that denote the whole parameter map, which is always present.
+func (a *base_ast_fmt) refersToMap() bool {
+	return utils.ElementInList(a.variableName, validMapSelectors[:])
+}
+
 // VerifyParameters_direct for %fmtVerb{variableName} checks whether the paramter is present.
 func (a ast_fmtPercent) VerifyParameters_direct(parameters_direct ParamMap, _ error) (err error) {
 
 	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !ok && !a.refersToMap() {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -364,7 +369,7 @@ func (a ast_fmtPercent) VerifyParameters_passed(parameters_direct ParamMap, _ Pa
 
 	// same as VerifyParameters_direct. We ignore the parameters_passed map
 	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !ok && !a.refersToMap() {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -381,7 +386,7 @@ func (a ast_fmtDollar) VerifyParameters_direct(_ ParamMap, _ error) error {
 func (a ast_fmtDollar) VerifyParameters_passed(_ ParamMap, parameters_passed ParamMap, _ error) (err error) {
 
 	_, ok := parameters_passed[a.variableName]
-	if !ok {
+	if !ok && !a.refersToMap() {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
-- 
2.43.0


From da240031c8fbaec3ce3b6b651fc100462a2d2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 08/41] fix: negate the argument rather than the receiver in
 Exponent.Neg

---
 bandersnatch/exponents/exponents.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index d6ddcbc..8f68c71 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -227,10 +227,10 @@ func (z *Exponent) Neg(x *Exponent) {
 		return
 	}
 	var borrow uint64
-	z.value[0], borrow = bits.Sub64(curveExponent_0, z.value[0], 0)
-	z.value[1], borrow = bits.Sub64(curveExponent_1, z.value[1], borrow)
-	z.value[2], borrow = bits.Sub64(curveExponent_2, z.value[2], borrow)
-	z.value[3], _ = bits.Sub64(curveExponent_3, z.value[3], borrow)
+	z.value[0], borrow = bits.Sub64(curveExponent_0, x.value[0], 0)
+	z.value[1], borrow = bits.Sub64(curveExponent_1, x.value[1], borrow)
+	z.value[2], borrow = bits.Sub64(curveExponent_2, x.value[2], borrow)
+	z.value[3], _ = bits.Sub64(curveExponent_3, x.value[3], borrow)
 }
 
 // SetZero sets the exponent value to 0
-- 
2.43.0


From aa450f0438a2180688687ea7e58b0f7c58a96cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 09/41] fix: reduce, not negate, exponents in ModuloP253

---
 bandersnatch/exponents/exponents.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index 8f68c71..f22d3fd 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -55,7 +55,7 @@ func (z *Exponent) ModuloP253() (ret Exponent) {
 	if z.isNormalized_Subgroup() {
 		ret = *z
 	} else {
-		ret.Sub(&p253Exponent, z)
+		ret.Sub(z, &p253Exponent)
 	}
 	return
 }
-- 
2.43.0


From 29c19a35585258517675b513fb9b063081e7cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 10/41] fix: consume the buffer and report the bytes read in
 the _Buffer deserializers

---
 bandersnatch/fieldElements/uint256_serialize.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index 10f7a31..14ff119 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -202,7 +202,7 @@ func (z *Uint256) Deserialize(input io.Reader, byteOrder FieldElementEndianness)
 
 func (z *Uint256) Deserialize_Buffer(input *bytes.Buffer, byteOrder FieldElementEndianness) (bytesRead int, err bandersnatchErrors.DeserializationError) {
 
-	// Optimization: Instead of copying the input into buf, we check for the correct size (this is the only possible error condition) and then read directly from the underlying wrapped []byte.
+	// Optimization: Instead of copying the input into buf, we check for the correct size (this is the only possible error condition) and then read (and consume) directly from the underlying wrapped []byte.
 	if input.Len() < 32 {
 		// If the input does not have sufficent size, we actually read it all (draining the buffer) and report an error (This is mostly to be consistent with the general method)
 		// For simplicity, we just call the general function, as we don't care about speed on error.
@@ -210,7 +210,8 @@ func (z *Uint256) Deserialize_Buffer(input *bytes.Buffer, byteOrder FieldElement
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z))
+	bytesRead = 32
 	return
 }
 
@@ -285,7 +286,7 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 		return
 	}
 
-	// Optimization: Instead of copying the data into buf, we check for the correct size and then read directly from the underlying wrapped []byte via input.Bytes()
+	// Optimization: Instead of copying the data into buf, we check for the correct size and then read directly from the underlying wrapped []byte via input.Next()
 
 	// check that the input has sufficient size
 	if inputSize := input.Len(); inputSize < 32 {
@@ -295,7 +296,8 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z))
+	bytesRead = 32
 
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
-- 
2.43.0


From 7e7d40d473c2cb1b9884fa904fd5ebaef3dfc745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 11/41] fix: report the bytes read and short inputs in the
 _Bytes deserializers

---
 bandersnatch/fieldElements/uint256_serialize.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index 14ff119..382340f 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -218,11 +218,13 @@ func (z *Uint256) Deserialize_Buffer(input *bytes.Buffer, byteOrder FieldElement
 func (z *Uint256) Deserialize_Bytes(input []byte, byteOrder FieldElementEndianness) (bytesRead int, err bandersnatchErrors.DeserializationError) {
 
 	if len(input) < 32 {
-		panic("Not handled yet") // TODO
+		// We don't care about speed on error, so we just call the general function to report it consistently.
+		return z.Deserialize(bytes.NewReader(input), byteOrder)
 	}
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	return
 }
 
@@ -321,11 +323,13 @@ func (z *Uint256) DeserializeAndGetPrefix_Bytes(input []byte, prefixLength uint8
 	}
 
 	if len(input) < 32 {
-		panic("Not handled yet") // TODO
+		// We don't care about speed on error, so we just call the general function to report it consistently.
+		return z.DeserializeAndGetPrefix(bytes.NewReader(input), prefixLength, byteOrder)
 	}
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
 
-- 
2.43.0


From 30c1d64684679fff99b5d3cb38dc6952f3df603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 12/41] fix: report the actual arguments in the errors for
 points constructed from a coordinate and a sign

---
 bandersnatch/curvePoints/serializer_curve_field.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 2c13aca..8bb2c95 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -253,7 +253,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
@@ -314,7 +314,7 @@ func CurvePointFromXAndSignY_subgroup(x *FieldElement, signY int, trustLevel IsI
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
@@ -483,7 +483,7 @@ func CurvePointFromYAndSignX_subgroup(y *FieldElement, signX int, trustLevel IsI
 			&struct {
 				Y     FieldElement
 				SignX int
-			}{})
+			}{Y: *y, SignX: signX})
 		point = Point_axtw_subgroup{} // just for clarity. This is the case anyway.
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From f8879b49e1278d326fb6d3a01800ba8700a80a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 13/41] fix: leave xtw receivers unchanged when
 SetFromSubgroupPoint fails on a NaP

---
 bandersnatch/curvePoints/curve_point_xtw.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index f1aaa40..1730a07 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -1064,7 +1064,6 @@ func (p *point_xtw_base) NegEq() {
 func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP to xtw via SetFromSubgroupPoint", false, input)
-		*p = Point_xtw_subgroup{}
 		return false
 	}
 	if input.CanOnlyRepresentSubgroup() {
@@ -1106,7 +1105,6 @@ func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRe
 func (p *Point_xtw_full) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP point to xtw subgroup point", false, input)
-		*p = Point_xtw_full{}
 		return false
 	}
 	if !trusted.Bool() {
-- 
2.43.0


From 2e7d2ad8e649539671eca8863e3312d016ba0bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 14/41] fix: keep a BitHeader valid when SetBitHeader refuses
 its arguments

---
 bandersnatch/common/embedded_params.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bandersnatch/common/embedded_params.go b/bandersnatch/common/embedded_params.go
index 024a8a5..8cb850e 100644
--- a/bandersnatch/common/embedded_params.go
+++ b/bandersnatch/common/embedded_params.go
@@ -51,9 +51,7 @@ func (bh *BitHeader) GetBitHeader() BitHeader {
 // You are supposed to write e.g. bh.SetBitHeader(PrefixBits(0b0101), 4)
 // with explicit type conversion to PrefixBits in order to not mess up the order of parameters.
 func (bh *BitHeader) SetBitHeader(prefixBits PrefixBits, prefixLen uint8) {
-	bh.prefixBits = prefixBits
-	bh.prefixLen = prefixLen
-	bh.validate()
+	*bh = MakeBitHeader(prefixBits, prefixLen) // panics for invalid inputs, in which case bh keeps its (valid) value.
 }
 
 // MakeBitHeader creates a new BitHeader with the given prefixBits and prefixLen.
-- 
2.43.0


From 7b51aed74a4159fc0fa873a332e11db931ba95ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 15/41] fix: check for invalid points in IsInSubgroup

---
 bandersnatch/curvePoints/curve_point.go            |  1 -
 bandersnatch/curvePoints/curve_point_axtw.go       |  9 +++++++++
 bandersnatch/curvePoints/curve_point_doubleproj.go | 12 ++++++++++++
 bandersnatch/curvePoints/curve_point_xtw.go        |  9 +++++++++
 4 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/curve_point.go b/bandersnatch/curvePoints/curve_point.go
index f1cb5e6..44d36ec 100644
--- a/bandersnatch/curvePoints/curve_point.go
+++ b/bandersnatch/curvePoints/curve_point.go
@@ -262,7 +262,6 @@ type thisCurvePointCanRepresentFullCurve struct{}
 func (thisCurvePointCanRepresentInfinity) CanRepresentInfinity() bool         { return true }
 func (thisCurvePointCannotRepresentInfinity) CanRepresentInfinity() bool      { return false }
 func (thisCurvePointCanOnlyRepresentSubgroup) CanOnlyRepresentSubgroup() bool { return true }
-func (thisCurvePointCanOnlyRepresentSubgroup) IsInSubgroup() bool             { return true }
 func (thisCurvePointCanRepresentFullCurve) CanOnlyRepresentSubgroup() bool    { return false }
 func (thisCurvePointCanRepresentFullCurve) HasDecaf() bool                    { return false }
 
diff --git a/bandersnatch/curvePoints/curve_point_axtw.go b/bandersnatch/curvePoints/curve_point_axtw.go
index 9380b7f..42f1815 100644
--- a/bandersnatch/curvePoints/curve_point_axtw.go
+++ b/bandersnatch/curvePoints/curve_point_axtw.go
@@ -437,6 +437,15 @@ func (p *Point_axtw_full) IsInSubgroup() bool {
 	return legendreCheckA_affineX(p.x) && legendreCheckE1_affineY(p.y)
 }
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+// Since the type can only represent points on the subgroup, this is only false for NaPs.
+func (p *Point_axtw_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // Clone returns a pointer to an independent copy of the given base point struct.
 // The returned pointer is returned in a CurvePointPtrInterfaceBaseRead interface, but the actual value is guaranteed to have the same type as the receiver.
 func (p *point_axtw_base) Clone() CurvePointPtrInterfaceBaseRead {
diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index d00e343..3f5b4b1 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1112,9 +1112,21 @@ func (p *Point_efgh_full) SetFrom(input CurvePointPtrInterfaceRead) {
 
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_efgh_full) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
 	return legendreCheckA_EG(p.e, p.g) && legendreCheckE1_FH(p.f, p.h)
 }
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+// Since the type can only represent points on the subgroup, this is only false for NaPs.
+func (p *Point_efgh_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // Validate checks whether the point is a valid curve point.
 //
 // NOTE: Outside of NaPs, it should not be possible to create points that fail Validate when using the interface correctly.
diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index 1730a07..a10ab7e 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -593,6 +593,15 @@ func (p *Point_xtw_full) IsInSubgroup() bool {
 	return legendreCheckA_projectiveXZ(p.x, p.z) && legendreCheckE1_projectiveYZ(p.y, p.z)
 }
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+// Since the type can only represent points on the subgroup, this is only false for NaPs.
+func (p *Point_xtw_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // TODO
 /*
 // SerializeLong serialize the given point in long serialization format. err==nil iff everything worked OK.
-- 
2.43.0


From 27f0f2cd6f1f8ac485dfaabad02d397cacf0c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 16/41] fix: escape braces in the error for invalid signs of X

---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 8bb2c95..afdaf14 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -413,7 +413,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	}
 	if signX != +1 && signX != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from {-1,0,+1}. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from \\{-1,0,+1\\}. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
 			&errData{Y: *y, SignX: signX})
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From a21e2da590cbaec48ae6cea2f1ba1a655482c426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 17/41] fix: report truncated slices as unexpected EOF and set
 PartialRead consistently when deserializing slices

---
 .../pointserializer/headerSerializer.go         |  4 +++-
 .../pointserializer/serialize_curve_points.go   | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index c272876..5ff881a 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -297,7 +297,9 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 	bytesJustRead, errPlain := io.ReadFull(input, buf[:])
 	bytesRead += bytesJustRead // Validate ensures this fits into int32
 	if errPlain != nil {
-		errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF
+		if bytesRead != 0 {
+			errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF, unless there was nothing to read at all
+		}
 		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain, errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
 			FIELDNAME_ACTUALLY_READ, buf[:],
diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index 73b63e1..468ad87 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -195,6 +195,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointHeader(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
+			errorTransform.UnexpectEOF2(&errNonBatch) // we have already read (at least) the size of the slice.
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 				"PointsDeserialized", i,
@@ -205,7 +206,8 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_point.DeserializeCurvePoint(inputStream, trustLevel, targetSlice.GetByIndex(i))
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
-			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
+			errorTransform.UnexpectEOF2(&errNonBatch)
+			if i != size-1 || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialGlobalSliceFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 					"PointsDeserialized", i,
@@ -221,7 +223,10 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointFooter(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
+			errorTransform.UnexpectEOF2(&errNonBatch)
+			// If this was the last thing to read and we read all of it (but it did not match), we do not have a partial read.
+			partialRead := i != size-1 || !deserializer_header.trivialGlobalSliceFooter() || bytesJustRead == 0 || errNonBatch.GetData_struct().PartialRead
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, partialRead)
 			return
 		}
 	}
@@ -291,7 +296,9 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	bytesJustRead, errNonBatch = md.headerDeserializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size))
+		errorTransform.UnexpectEOF2(&errNonBatch)
+		partialRead := bytesJustRead == 0 || errNonBatch.GetData_struct().PartialRead // everything before the footer was read.
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size), FIELDNAME_PARTIAL_READ, partialRead)
 		return
 	}
 
@@ -352,7 +359,9 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	bytesJustRead, errNonBatch = md.headerSerializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size))
+		errorTransform.UnexpectEOF2(&errNonBatch)
+		partialRead := bytesJustRead == 0 || errNonBatch.GetData_struct().PartialRead // everything before the footer was read.
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero, FIELDNAME_POINTSDESERIALIZED, int(size), FIELDNAME_PARTIAL_READ, partialRead)
 		return
 	}
 
-- 
2.43.0


From 0a1a2e9ee1f7c3f296ac4784adfbe903ba01ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 18/41] fix: show the size of the headers in SliceOutputLength
 errors

---
 bandersnatch/pointserializer/serialize_curve_point.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 7a5c752..2ecaf87 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -740,7 +740,7 @@ func (md *multiDeserializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Size}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
@@ -774,7 +774,7 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Size}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-- 
2.43.0


From 7b2cf007a6fff1b2efa2b01ce36622369e877f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 19/41] fix: let DoesMethodExist handle methods of interface
 types, which have no receiver argument

---
 internal/utils/reflect_call.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/utils/reflect_call.go b/internal/utils/reflect_call.go
index 91813ad..c1655f9 100644
--- a/internal/utils/reflect_call.go
+++ b/internal/utils/reflect_call.go
@@ -39,17 +39,22 @@ func DoesMethodExist(receiverType reflect.Type, methodName string, inputs []refl
 		return false, fmt.Sprintf("type %v has no method named %v", typeName, methodName)
 	}
 	methodType := method.Type
-	// +1 comes from the receiver. Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input.
-	if methodType.NumIn() != len(inputs)+1 {
-		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-1)
+	// Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input.
+	// The exception are interface types, where the method's type has no receiver.
+	numReceivers := 1
+	if receiverType.Kind() == reflect.Interface {
+		numReceivers = 0
+	}
+	if methodType.NumIn() != len(inputs)+numReceivers {
+		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-numReceivers)
 	}
 	if methodType.NumOut() != len(outputs) {
 		return false, fmt.Sprintf("method %v.%v has an unexpected number of output arguments. We expected %v, got %v", typeName, methodName, len(outputs), methodType.NumOut())
 	}
 
 	for i, t := range inputs {
-		if !t.AssignableTo(methodType.In(i + 1)) {
-			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+1)))
+		if !t.AssignableTo(methodType.In(i + numReceivers)) {
+			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+numReceivers)))
 		}
 	}
 
-- 
2.43.0


From 46a250efeb477e68a46218d15f010185e7344f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 20/41] fix: let ValidateError_Params(nil) use the parameters
 of the error itself rather than panic

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index 81a17eb..b4b1fbd 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -266,5 +266,8 @@ func (e *errorWithParameters_common) ValidateError_Base() error {
 //
 // This method is required for [ValidateError_Base] or [ValidateError_Final] to recurse and part of the [ErrorInterpolater] interface.
 func (e *errorWithParameters_common) ValidateError_Params(params_passed ParamMap) error {
+	if params_passed == nil {
+		params_passed = e.params // non-nil
+	}
 	return e.parsedInterpolationString.VerifyParameters_passed(e.params, params_passed, e.wrapped_error)
 }
-- 
2.43.0


From 0ca15032e978860e4c467fbf57094558ac57c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 21/41] fix: refuse previous data of the wrong type in
 NewErrorWithData_struct

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index b4b1fbd..db6e9ba 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -209,11 +209,16 @@ func deleteParameterFromError[StructType any](baseError error, interpolationStri
 // mode controls how already-present data in baseError should be handled.
 //
 // The function may panic if called with invalid StructType, so StructType should be checked by the caller beforehand.
-// By design, it also panics if mode==[AssertDataIsNotReplaced] and there is different data in base error.
+// By design, it also panics if mode==[AssertDataIsNotReplaced] and there is different data in base error
+// or if mode==[PreferPreviousData] and the data in base error has the wrong type for StructType.
 func newErrorWithData_struct[StructType any](baseError error, interpolationString string, data *StructType, mode PreviousDataTreatment) (ret *errorWithParameters_T[StructType]) {
 	ret = new(errorWithParameters_T[StructType])
 	ret.errorWithParameters_common = makeErrorWithParametersCommon(baseError, interpolationString)
 	fillMapFromStruct(data, &ret.errorWithParameters_common.params, mode)
+	// If previous data takes precedence, it may have the wrong type.
+	if err := ensureCanMakeStructFromParameters[StructType](&ret.errorWithParameters_common.params, EnsureDataIsPresent); err != nil {
+		panic(err)
+	}
 	return
 }
 
-- 
2.43.0


From 6e7d48914a68e4032b1eb25bb9b80c0ff18f78b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 22/41] fix: check the syntax when an error is created, so that
 errors are immutable afterwards

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index db6e9ba..f92b653 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -155,6 +155,8 @@ func makeErrorWithParametersCommon(baseError error, interpolationString string)
 	// Parse the intepolation string.
 	// We ignore potential returned errors: If there is a parsing error, this is additionally recorded in ret.parsedInterpolationString itself.
 	ret.parsedInterpolationString, _ = make_ast(tokens)
+	// The syntax check records its findings in the syntax tree. Do this before the error can be shared between goroutines.
+	_ = ret.parsedInterpolationString.handleSyntaxConditions()
 	ret.params = GetData_map(baseError)
 	return
 }
-- 
2.43.0


From 02c9c44722044c152a4324dbe3e1ae680b8cc1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 23/41] fix: find the data of errors boxed by
 MakeErrorIncomparable

---
 bandersnatch/errorsWithData/errorsWithData.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/errorsWithData/errorsWithData.go b/bandersnatch/errorsWithData/errorsWithData.go
index 9dd8f68..aff45a7 100644
--- a/bandersnatch/errorsWithData/errorsWithData.go
+++ b/bandersnatch/errorsWithData/errorsWithData.go
@@ -361,7 +361,7 @@ func isExportedIdentifier(s string) bool {
 // The implementations simply follows err's error chain until we find some error that we can work with.
 func GetData_map(err error) map[string]any {
 	for errorChain := err; errorChain != nil; errorChain = errors.Unwrap(errorChain) {
-		if errChainGood, ok := errorChain.(ErrorWithData_any); ok {
+		if errChainGood, ok := UnboxError(errorChain).(ErrorWithData_any); ok {
 			return errChainGood.GetData_map()
 		}
 	}
@@ -380,7 +380,7 @@ func HasParameter(err error, parameterName string) bool {
 		}
 	*/
 	for errorChain := err; errorChain != nil; errorChain = errors.Unwrap(errorChain) {
-		if errChainGood, ok := errorChain.(ErrorWithData_any); ok {
+		if errChainGood, ok := UnboxError(errorChain).(ErrorWithData_any); ok {
 			return errChainGood.HasParameter(parameterName)
 		}
 	}
@@ -410,7 +410,7 @@ func GetParameter(err error, parameterName string) (value any, wasPresent bool)
 	*/
 
 	for errorChain := err; errorChain != nil; errorChain = errors.Unwrap(errorChain) {
-		if errChainGood, ok := errorChain.(ErrorWithData_any); ok {
+		if errChainGood, ok := UnboxError(errorChain).(ErrorWithData_any); ok {
 			return errChainGood.GetParameter(parameterName)
 		}
 	}
-- 
2.43.0


From 873c926a522201148ff64074557d7afc9d1a49c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 24/41] fix: let errors boxed by MakeErrorIncomparable match
 the errors that the contained error wraps

---
 .../errorsWithData/incomparableWrapper.go     | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/incomparableWrapper.go b/bandersnatch/errorsWithData/incomparableWrapper.go
index 11568b8..d2aeeb9 100644
--- a/bandersnatch/errorsWithData/incomparableWrapper.go
+++ b/bandersnatch/errorsWithData/incomparableWrapper.go
@@ -1,6 +1,10 @@
 package errorsWithData
 
-import "github.com/GottfriedHerold/Bandersnatch/internal/utils"
+import (
+	"errors"
+
+	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
+)
 
 // TODO: Needs some cleanup (mostly removing parts of the API)
 
@@ -191,6 +195,21 @@ func (e incomparableError[StructType]) AsComparable() IncomparableMaker {
 	return e.ewd_MakeIncomparable_struct
 }
 
+// Unwrap is provided to work with [errors.Is]. It returns what the contained error wraps.
+func (e incomparableError_plain) Unwrap() error {
+	return errors.Unwrap(e.IncomparableMaker)
+}
+
+// Unwrap is provided to work with [errors.Is]. It returns what the contained error wraps.
+func (e incomparableError_any) Unwrap() error {
+	return errors.Unwrap(e.ewd_MakeIncomparable_any)
+}
+
+// Unwrap is provided to work with [errors.Is]. It returns what the contained error wraps.
+func (e incomparableError[StructType]) Unwrap() error {
+	return errors.Unwrap(e.ewd_MakeIncomparable_struct)
+}
+
 // Do we even need those 2?
 
 // AsComparable_typed is similar to [AsComparable], but preserves the [ErrorWithData_any] extension of the error interface.
-- 
2.43.0


From 2afd1934d25feb76be49147b05b3125cc229de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 25/41] fix: let Id.Get return ok==false rather than panic for
 unknown call counters

---
 internal/callcounters/callcounters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index a050604..dbade72 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -499,7 +499,9 @@ func (id Id) Get() (ret int, ok bool) {
 	}
 	correctDependencies()
 	cc, ok := callCounters[id]
-	ret = cc.count_modified
+	if ok {
+		ret = cc.count_modified
+	}
 	return
 }
 
-- 
2.43.0


From 62d11dd0efebf696f3af57a08d6012bd907e19b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 26/41] fix: accept an empty parent in
 CreateAttachedCallCounter, as documented

---
 internal/callcounters/callcounters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index dbade72..ce5e884 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -225,7 +225,9 @@ func CreateNewCallCounter(id Id, displayName string, doDisplay bool, attachTo Id
 // It also makes the attached-to parent display the difference between itself and its children.
 func CreateAttachedCallCounter(id Id, displayName string, attachTo Id) (cc *CallCounter) {
 	cc = CreateNewCallCounter(id, displayName, true, attachTo, false)
-	attachTo.SetDisplayRemaining(true)
+	if attachTo != "" {
+		attachTo.SetDisplayRemaining(true)
+	}
 	return
 }
 
-- 
2.43.0


From dc02ad74aca8346e23b4bc7c9202824a04f2a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 27/41] fix: default the display name of call counters to the
 id in CreateNewCallCounter

---
 internal/callcounters/callcounters.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index ce5e884..fac9ede 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -208,7 +208,11 @@ func CreateNewCallCounter(id Id, displayName string, doDisplay bool, attachTo Id
 	if cc.initialized {
 		panic("callcounters: trying to create a call counter for an already used id")
 	}
-	cc.displayName = displayName
+	if displayName != "" {
+		cc.displayName = displayName
+	} else {
+		cc.displayName = string(id)
+	}
 	cc.id = id
 	cc.initialized = true
 	cc.displayRootNode = displayRootNode
-- 
2.43.0


From 55b465a98103dfee7edbef92c22a08216c6a858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 28/41] fix: mark call counters below hidden ones in the
 structure report

---
 internal/callcounters/callcounters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index fac9ede..a13bb9f 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -406,7 +406,7 @@ func GetCallCounterStructureReport(indent string) (ret string) {
 				ret += item.Tag
 				if !item.CC.display {
 					ret += " (hidden)"
-					if hidebelow > item.depth {
+					if hidebelow == -1 || hidebelow > item.depth {
 						hidebelow = item.depth
 					}
 				} else if hidebelow == -1 {
-- 
2.43.0


From 10c12b12afdf5ae51a463340dea4c0e0a5e92f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 29/41] fix: do not fail reads from a FaultyBuffer that holds
 fewer bytes than the threshold

---
 internal/testutils/failingIO.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/testutils/failingIO.go b/internal/testutils/failingIO.go
index 085d897..eef73ad 100644
--- a/internal/testutils/failingIO.go
+++ b/internal/testutils/failingIO.go
@@ -49,7 +49,7 @@ func (fb *FaultyBuffer) Read(p []byte) (n int, err error) {
 	if err != nil {
 		return
 	}
-	if fault {
+	if fault && n == L { // n < L means that the buffer did not contain enough bytes to reach the threshold
 		err = fb.designatedErr
 		fb.alreadyRead += 1 // to differentiate repeated calls
 	}
-- 
2.43.0


From 541742cbd75fe71279d4115f38a2039da981686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 30/41] fix: release the lock on a precomputed cache entry if
 extending it panics

---
 internal/testutils/precomputation_meta.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/testutils/precomputation_meta.go b/internal/testutils/precomputation_meta.go
index b1e08e9..ee56b72 100644
--- a/internal/testutils/precomputation_meta.go
+++ b/internal/testutils/precomputation_meta.go
@@ -181,12 +181,14 @@ func (pc *precomputedCachePage[KeyType, ElementType]) getElements(
 	pc.pageMutex.RUnlock()
 	// sync.RWMutex cannot atomically upgrade read-locks to rw-locks. So pc.elements may get extended in the meantime. This is fine.
 	creationFun := source.creationFun
-	pc.pageMutex.Lock()
-	// extend as appropriate
-	for len(pc.elements) < amount {
-		pc.elements = append(pc.elements, creationFun(pc.rng, pc.key))
-	}
-	pc.pageMutex.Unlock()
+	func() {
+		pc.pageMutex.Lock()
+		defer pc.pageMutex.Unlock() // creationFun may panic (in particular if it is nil)
+		// extend as appropriate
+		for len(pc.elements) < amount {
+			pc.elements = append(pc.elements, creationFun(pc.rng, pc.key))
+		}
+	}()
 
 	// We are now guaranteed to read the desired amount
 	pc.pageMutex.RLock()
-- 
2.43.0


From 135817c24477bb6dc524697345dba49e9a274766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 31/41] fix: let IsNilable recognize unsafe.Pointer

---
 internal/utils/reflect_type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/utils/reflect_type.go b/internal/utils/reflect_type.go
index 1f7c3f2..85fc67b 100644
--- a/internal/utils/reflect_type.go
+++ b/internal/utils/reflect_type.go
@@ -36,7 +36,8 @@ func IsNilable(t reflect.Type) bool {
 		reflect.Chan,
 		reflect.Func,
 		reflect.Slice,
-		reflect.Map:
+		reflect.Map,
+		reflect.UnsafePointer:
 		return true
 	case reflect.Invalid:
 		panic("IsNilable called on invalid type")
-- 
2.43.0


From b508341e469af576ea6834279dc4286b1a0d3f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 32/41] fix: a failed read of the slice size reports only the
 bytes that were read

---
 bandersnatch/pointserializer/headerSerializer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index 5ff881a..7d0c671 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -302,7 +302,7 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 		}
 		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain, errorsWithData.ReplacePreviousData, errorsWithData.MissingDataAsZero,
 			FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
-			FIELDNAME_ACTUALLY_READ, buf[:],
+			FIELDNAME_ACTUALLY_READ, buf[:bytesJustRead],
 			FIELDNAME_BYTES_READ, bytesJustRead,
 		)
 		return
-- 
2.43.0


From 88e441cc026e3cecc46359e45de20a737dea85ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 33/41] fix: Double did nothing for arguments whose type is not
 defined in the package

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 3f5b4b1..3fe97e6 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -796,6 +796,19 @@ func (p *point_efgh_base) Double(x CurvePointPtrInterfaceRead) {
 		p.double_ss(&x.point_efgh_base)
 	case *Point_efgh_subgroup:
 		p.double_ss(&x.point_efgh_base)
+	default:
+		if x.IsNaP() {
+			napEncountered("NaP encountered while Doubling point of unknown type", false, x)
+			*p = point_efgh_base{}
+			return
+		}
+		// Note that we can work with a P vs. P+A ambiguity, because P and P+A have the same double.
+		var xConverted point_xtw_base
+		xConverted.x = x.X_decaf_projective()
+		xConverted.y = x.Y_decaf_projective()
+		xConverted.t = x.T_decaf_projective()
+		xConverted.z = x.Z_decaf_projective()
+		p.double_st(&xConverted)
 	}
 }
 
-- 
2.43.0


From 403b5225b16e5e0cb63c5c3732b1c40f21c35277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 34/41] fix: Point_xtw_full.SetFrom panicked for points at
 infinity and NaPs of types without T coordinate

---
 bandersnatch/curvePoints/curve_point_xtw.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index a10ab7e..a9c4951 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -1175,10 +1175,21 @@ func (p *Point_xtw_full) SetFrom(input CurvePointPtrInterfaceRead) {
 	case CurvePointPtrInterfaceCooReadExtended:
 		p.x, p.y, p.t, p.z = input.XYTZ_projective()
 	default:
-		p.x, p.y, p.z = input.XYZ_projective()
-		if p.z.IsZero() {
-			panic("Not implemented.") // TODO: FIX THIS
+		if input.IsNaP() {
+			napEncountered("Converting NaP of unknown type to xtw_full", false, input)
+			*p = Point_xtw_full{}
+			return
+		}
+		if input.IsAtInfinity() {
+			// X:Y:Z coordinates do not determine which point at infinity we have.
+			if input.(CurvePointPtrInterfaceDistinguishInfinity).IsE1() {
+				p.point_xtw_base = infinitePoint1_xtw_base
+			} else {
+				p.point_xtw_base = infinitePoint2_xtw_base
+			}
+			return
 		}
+		p.x, p.y, p.z = input.XYZ_projective()
 		p.t.Mul(&p.x, &p.y)
 		p.x.MulEq(&p.z)
 		p.y.MulEq(&p.z)
-- 
2.43.0


From 0dc4d2ed8e7cd7a945182230581adbe81b56e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 35/41] fix: Point_efgh_subgroup.SetFrom gave a wrong point
 when the argument embeds the receiver

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 3fe97e6..3e0715e 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1082,17 +1082,18 @@ func (p *Point_efgh_subgroup) SetFrom(input CurvePointPtrInterfaceRead) {
 		p.g.SetOne()
 		p.h = input.y
 	default:
-		// Note: p cannot alias subgroup
 		if input.IsNaP() {
 			napEncountered("Converting NaP of unknown type to efgh_subgroup", false, input)
 			*p = Point_efgh_subgroup{}
 			return
 		}
 		ensureSubgroupOnly(input)
-		p.e = input.X_decaf_projective()
-		p.f = input.Z_decaf_projective()
-		p.g = p.f
-		p.h = input.Y_decaf_projective()
+		// We must read all coordinates before changing p, because p may be embedded in input.
+		x, y, z := input.X_decaf_projective(), input.Y_decaf_projective(), input.Z_decaf_projective()
+		p.e = x
+		p.f = z
+		p.g = z
+		p.h = y
 	}
 }
 
-- 
2.43.0


From b9a4552cb6ca394ed50fc888d2d376824826307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 36/41] fix: the endomorphism could turn a NaP of a type not
 defined in the package into the neutral element

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 3e0715e..44882fb 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -870,6 +870,8 @@ func (p *Point_efgh_subgroup) Endo(input CurvePointPtrInterfaceRead) {
 		ensureSubgroupOnly(input)
 		if input.IsNaP() {
 			napEncountered("Computing endomorphism of NaP", false, input)
+			p.point_efgh_base = point_efgh_base{}
+			return
 		}
 		if input.IsNeutralElement() {
 			p.point_efgh_base = neutralElement_efghbase
-- 
2.43.0


From 8c6d81c3b626cbde17633b9888581e6c5ddd08cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 37/41] fix: Point_efgh_full.EndoEq turned a NaP into a curve
 point if the error handler answers true

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 44882fb..7565fe0 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -991,6 +991,12 @@ func (p *Point_efgh_subgroup) EndoEq() {
 //
 // p.EndoEq() is equivalent to p.Endo(&p).
 func (p *Point_efgh_full) EndoEq() {
+	// IsAtInfinity's answer for NaPs is up to the error handler, so we need to check for NaPs ourselves.
+	if p.IsNaP() {
+		napEncountered("Computing endomorphism of NaP", false, p)
+		p.point_efgh_base = point_efgh_base{}
+		return
+	}
 	if p.IsAtInfinity() {
 		p.point_efgh_base = orderTwoPoint_efghbase
 	} else {
-- 
2.43.0


From 53f54a760464c3c2f50d18c9718f35fdee326efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 38/41] fix: failed reads and writes of field elements set
 IoError

---
 bandersnatch/fieldElements/field_element_serialize.go | 5 +++--
 bandersnatch/fieldElements/uint256_serialize.go       | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/fieldElements/field_element_serialize.go b/bandersnatch/fieldElements/field_element_serialize.go
index 791cf30..3098c49 100644
--- a/bandersnatch/fieldElements/field_element_serialize.go
+++ b/bandersnatch/fieldElements/field_element_serialize.go
@@ -204,7 +204,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) Serialize(output io.Writer, byteOrd
 	var buf []byte = make([]byte, 32)
 	byteOrder.PutUint256(buf, zUint256)
 	bytesWritten, errPlain = output.Write(buf)
-	err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.WriteErrorData{PartialWrite: bytesWritten != 0 && bytesWritten != 32, BytesWritten: bytesWritten})
+	err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.WriteErrorData{PartialWrite: bytesWritten != 0 && bytesWritten != 32, BytesWritten: bytesWritten, IoError: true})
 	return
 }
 
@@ -247,7 +247,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) SerializeWithPrefix(output io.Write
 	var buf []byte = make([]byte, 32)
 	byteOrder.PutUint256(buf, zUint256)
 	bytesWritten, errPlain = output.Write(buf)
-	err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.WriteErrorData{PartialWrite: bytesWritten != 0 && bytesWritten != 32, BytesWritten: bytesWritten})
+	err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.WriteErrorData{PartialWrite: bytesWritten != 0 && bytesWritten != 32, BytesWritten: bytesWritten, IoError: true})
 	return
 }
 
@@ -316,6 +316,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) DeserializeWithExpectedPrefix(input
 			PartialRead:  bytesRead != 0 && bytesRead != 32,
 			BytesRead:    bytesRead,
 			ActuallyRead: buf[0:bytesRead],
+			IoError:      errPlain != ErrPrefixMismatch && errPlain != ErrNonNormalizedDeserialization,
 		})
 	}()
 	expectedPrefixLength := expectedPrefix.PrefixLen()
diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index 382340f..ba39dfa 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -190,6 +190,7 @@ func (z *Uint256) Deserialize(input io.Reader, byteOrder FieldElementEndianness)
 			PartialRead:  bytesRead != 0 && bytesRead != 32,
 			BytesRead:    bytesRead,
 			ActuallyRead: buf[0:bytesRead],
+			IoError:      true,
 		})
 		return
 	}
@@ -260,6 +261,7 @@ func (z *Uint256) DeserializeAndGetPrefix(input io.Reader, prefixLength uint8, b
 			PartialRead:  bytesRead != 0 && bytesRead != 32,
 			BytesRead:    bytesRead,
 			ActuallyRead: buf[0:bytesRead],
+			IoError:      true,
 		})
 		return
 	}
@@ -362,6 +364,7 @@ func (z *Uint256) DeserializeWithExpectedPrefix(input io.Reader, expectedPrefix
 			PartialRead:  bytesRead != 0 && bytesRead != 32,
 			BytesRead:    bytesRead,
 			ActuallyRead: buf[0:bytesRead],
+			IoError:      errPlain != ErrPrefixMismatch,
 		})
 	}()
 
-- 
2.43.0


From 69fe80be6dc49e7f14cd596cedcdda37686031f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 39/41] fix: failed reads and writes of the header and size of
 slices set IoError

---
 bandersnatch/pointserializer/headerSerializer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index 7d0c671..502a886 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -9,6 +9,7 @@ import (
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
 	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
+	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
 	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
 )
 
@@ -304,6 +305,7 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 			FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
 			FIELDNAME_ACTUALLY_READ, buf[:bytesJustRead],
 			FIELDNAME_BYTES_READ, bytesJustRead,
+			errorconsts.FIELDNAME_IO_ERROR, true,
 		)
 		return
 	}
@@ -336,6 +338,7 @@ func (shs *simpleHeaderSerializer) serializeGlobalSliceHeader(output io.Writer,
 		err = errorsWithData.NewErrorWithData_struct(errPlain, "%w", &bandersnatchErrors.WriteErrorData{
 			BytesWritten: bytesWritten,
 			PartialWrite: bytesWritten != 0,
+			IoError:      true,
 		})
 		return
 	}
@@ -350,6 +353,7 @@ func (shs *simpleHeaderSerializer) serializeGlobalSliceHeader(output io.Writer,
 		err = errorsWithData.NewErrorWithData_struct(errPlain, "%w", &bandersnatchErrors.WriteErrorData{
 			BytesWritten: bytesJustWritten,
 			PartialWrite: bytesJustWritten != simpleHeaderSliceLengthOverhead,
+			IoError:      true,
 		})
 		return
 	}
-- 
2.43.0


From ce6e27b9be42346a03ff5319a5983b2b6ad8040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 40/41] fix: modulus.reciprocal was off by one for some moduli

The correction for an estimate that is too large was always undone by the
correction for one that is too small, and a modulus of 193 bits lost the
lowest bit of its reciprocal.
---
 bandersnatch/fieldElements/modulus.go | 34 +++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/bandersnatch/fieldElements/modulus.go b/bandersnatch/fieldElements/modulus.go
index 777efc1..479cf32 100644
--- a/bandersnatch/fieldElements/modulus.go
+++ b/bandersnatch/fieldElements/modulus.go
@@ -453,17 +453,26 @@ func (z *modulus) reciprocal() {
 	x3, t = bits.Sub64(r4i, 0, t)
 	x4, _ = bits.Sub64(r4h, 0, t)
 
-	// commit the decrement if the subtraction underflowed (reciprocal was too large)
+	// commit the decrement if the subtraction underflowed (reciprocal was too large); add y to q to match it
 	if b != 0 {
 		r4h, r4i, r4j, r4k, r4l = x4, x3, x2, x1, x0
+
+		q0, c = bits.Add64(q0, y[0], 0)
+		q1, c = bits.Add64(q1, y[1], c)
+		q2, c = bits.Add64(q2, y[2], c)
+		q3, c = bits.Add64(q3, y[3], c)
+		q4, c = bits.Add64(q4, 0, c)
+		q5, c = bits.Add64(q5, 0, c)
+		q6, c = bits.Add64(q6, 0, c)
+		q7, c = bits.Add64(q7, 0, c)
+		q8, _ = bits.Add64(q8, 0, c)
 	}
 
 	// subtract y from q
-	/*q0*/
-	_, b = bits.Sub64(q0, y[0], 0)
-	/*q1*/ _, b = bits.Sub64(q1, y[1], b)
-	/*q2*/ _, b = bits.Sub64(q2, y[2], b)
-	/*q3*/ _, b = bits.Sub64(q3, y[3], b)
+	t0, b = bits.Sub64(q0, y[0], 0)
+	t1, b = bits.Sub64(q1, y[1], b)
+	t2, b := bits.Sub64(q2, y[2], b)
+	t3, b := bits.Sub64(q3, y[3], b)
 	/*q4*/ _, b = bits.Sub64(q4, 0, b)
 	/*q5*/ _, b = bits.Sub64(q5, 0, b)
 	/*q6*/ _, b = bits.Sub64(q6, 0, b)
@@ -480,13 +489,24 @@ func (z *modulus) reciprocal() {
 	// commit the increment if the subtraction did not underflow (reciprocal was too small)
 	if b == 0 {
 		r4h, r4i, r4j, r4k, r4l = x4, x3, x2, x1, x0
+		q0, q1, q2, q3 = t0, t1, t2, t3
 	}
 
+	// The remainder q is in [0, y) now. The next bit of the reciprocal is 1 iff 2*q >= y, i.e. iff q - (y - q) >= 0
+	t0, b = bits.Sub64(y[0], q0, 0)
+	t1, b = bits.Sub64(y[1], q1, b)
+	t2, b = bits.Sub64(y[2], q2, b)
+	t3, _ = bits.Sub64(y[3], q3, b)
+	_, b = bits.Sub64(q0, t0, 0)
+	_, b = bits.Sub64(q1, t1, b)
+	_, b = bits.Sub64(q2, t2, b)
+	_, b = bits.Sub64(q3, t3, b)
+
 	// Shift to correct bit alignment, truncating excess bits
 
 	p = p - 1
 
-	x0, c = bits.Add64(r4l, r4l, 0)
+	x0, c = bits.Add64(r4l, r4l, 1-b)
 	x1, c = bits.Add64(r4k, r4k, c)
 	x2, c = bits.Add64(r4j, r4j, c)
 	x3, c = bits.Add64(r4i, r4i, c)
-- 
2.43.0


From df582ccbd637c5e0429c45fd09f3d72aa7b818a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 41/41] fix: partial header reads that end with a reader's own
 EOF-like error were misreported

The PartialRead and ActuallyRead error data for reading headers were derived from the kind
of error rather than from the number of bytes read, so a reader failing with an error that
wraps io.EOF (after some bytes) or io.ErrUnexpectedEOF (before any) got wrong data.
---
 bandersnatch/pointserializer/utils.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bandersnatch/pointserializer/utils.go b/bandersnatch/pointserializer/utils.go
index f79788b..6e3cb95 100644
--- a/bandersnatch/pointserializer/utils.go
+++ b/bandersnatch/pointserializer/utils.go
@@ -94,26 +94,22 @@ func consumeExpectRead(input io.Reader, expectToRead []byte) (bytes_read int, re
 		buf = buf[0:bytes_read:bytes_read] // We reduce the cap, so maybe some future version of Go actually frees the trailing memory. (We *could* copy it to a new buffer, but that's probably worse in most cases)
 
 		// Note: We deep-copy the contents of expectToRead. The reason is that the caller might later modify the backing array otherwise.
-		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read, IoError: true} // extra data returned in error
+		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read, PartialRead: bytes_read > 0, IoError: true} // extra data returned in error
+		// NOTE: bytes_read < l, since io.ReadFull drops errors after full reads.
 
 		if errors.Is(err, io.ErrUnexpectedEOF) {
 			// Note: Sprintf is only used for the length of the expected input. The other %%v{arg} are done via errorsWithData, hence escaping the %.
 			message := fmt.Sprintf(ErrorPrefix+"Unexpected EOF after reading %%v{BytesRead} out of %v bytes when reading header.\nReported error was %%w.\nBytes expected were 0x%%x{ExpectedToRead}, got 0x%%x{ActuallyRead}", len(expectToRead))
-			returnedErrorData.PartialRead = true
 			returnedError = errorsWithData.NewErrorWithData_struct(err, message, &returnedErrorData)
 			return
 		} else if errors.Is(err, io.EOF) {
 			message := ErrorPrefix + "EOF when trying to read buffer.\nExpected to read 0x%x{ExpectedToRead}, got EOF instead"
 
-			// Note: bytes_read == 0 is guaranteed by io.ReadFull if the error is io.EOF
-
-			returnedErrorData.ActuallyRead = make([]byte, 0)
-			returnedErrorData.PartialRead = false
+			// Note: bytes_read == 0 is guaranteed by io.ReadFull if the error is io.EOF itself. An io.Reader's own error wrapping io.EOF may come after bytes_read > 0 bytes.
 
 			returnedError = errorsWithData.NewErrorWithData_struct(err, message, &returnedErrorData)
 			return
 		} else { // other io error
-			returnedErrorData.PartialRead = (bytes_read > 0) // NOTE: io.ReadFull guarantees bytes_read < l, since errors after full reads are dropped.
 			returnedError = errorsWithData.NewErrorWithData_struct(err, "", &returnedErrorData)
 			return
 		}
-- 
2.43.0

