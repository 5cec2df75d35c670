From 480069f82c662d8fd913cb2e40ba6a26204d3cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 01/35] fix: cdf: promote the version for 64-bit global
 attributes before the header is written; check every attribute's type when
 added

---
 netcdf/cdf/cdfwriter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 09d0b64..5dadd87 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -386,10 +386,16 @@ func hasValidNames(am api.AttributeMap) bool {
 
 // AddAttributes adds attributes to be written out.
 // Use util.NewOrderedMap to create attribute maps.
-func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) error {
+func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
+	// Refuse unsupported types now. The version is promoted when the file is
+	// written, because these attributes may still be replaced.
+	version := cw.version
+	defer func() { cw.version = version }()
+	defer thrower.RecoverError(&err)
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
+	cw.checkV5Attributes(attrs)
 	cw.globalAttrs = attrs
 	return nil
 }
@@ -594,7 +600,6 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 
 		case []uint64, uint64, []int64, int64, []uint8, uint8, []uint16, uint16, []uint32, uint32:
 			cw.version = 5
-			return
 
 		default:
 			logger.Errorf("invalid attribute %#v", v)
@@ -893,6 +898,7 @@ func (cw *CDFWriter) writeNumber(n int64) {
 }
 
 func (cw *CDFWriter) writeAll() {
+	cw.checkV5Attributes(cw.globalAttrs) // may promote the version
 	writeBytes(cw.bf, []byte("CDF"))
 	write8(cw.bf, cw.version) // version 2 to handle big files
 	numRecs := int64(0)       // 0: not unlimited
@@ -909,7 +915,6 @@ func (cw *CDFWriter) writeAll() {
 		write32(cw.bf, 0)        // dimensions: absent
 		cw.writeNumber(int64(0)) // dimensions: absent
 	}
-	cw.checkV5Attributes(cw.globalAttrs)
 	cw.writeAttributes(cw.globalAttrs)
 	if len(cw.vars) > 0 {
 		write32(cw.bf, fieldVariable)
-- 
2.43.0


From 9584b9f43eec306e1e936d2fa52c220d2c562408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 02/35] fix: cdf: a zero-length unlimited variable must not
 shift the data offsets of other variables

---
 netcdf/cdf/cdfwriter.go | 53 ++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 5dadd87..7d1c6fb 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -608,18 +608,8 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 	}
 }
 
-func (cw *CDFWriter) writeVar(which int) {
-	saved := &cw.vars[which]
-	cw.writeName(saved.name)
-	cw.writeNumber(int64(len(saved.dimLengths)))
-	for i := range saved.dimLengths {
-		name := saved.dimNames[i]
-		dimID := cw.dimIds[name]
-		cw.writeNumber(int64(dimID))
-	}
-	cw.writeAttributes(saved.attrs)
-
-	write32(cw.bf, int32(saved.ty))
+// computeVsize returns the padded size of the variable, or of one of its records.
+func (cw *CDFWriter) computeVsize(saved *savedVar) int64 {
 	vsize := int64(0)
 	switch saved.ty {
 	case typeDouble, typeInt64, typeUInt64:
@@ -645,17 +635,52 @@ func (cw *CDFWriter) writeVar(which int) {
 		}
 	}
 	// pad vsize
-	vsize = 4 * ((vsize + 3) / 4)
+	return 4 * ((vsize + 3) / 4)
+}
+
+func (cw *CDFWriter) writeVar(which int) {
+	saved := &cw.vars[which]
+	cw.writeName(saved.name)
+	cw.writeNumber(int64(len(saved.dimLengths)))
+	for i := range saved.dimLengths {
+		name := saved.dimNames[i]
+		dimID := cw.dimIds[name]
+		cw.writeNumber(int64(dimID))
+	}
+	cw.writeAttributes(saved.attrs)
+
+	write32(cw.bf, int32(saved.ty))
+	vsize := cw.computeVsize(saved)
 	cw.writeNumber(int64(vsize))
 	saved.vsize = vsize
 
 	calcOffset := cw.begin
 	for i := range which {
-		calcOffset += cw.vars[i].vsize
+		if !cw.vars[i].isRecord() {
+			calcOffset += cw.vars[i].vsize
+		}
+	}
+	if saved.isRecord() {
+		// Records, of which there are none yet, come after all the other data.
+		for i := which; i < len(cw.vars); i++ {
+			if !cw.vars[i].isRecord() {
+				calcOffset += cw.computeVsize(&cw.vars[i])
+			}
+		}
+		for i := range which {
+			if cw.vars[i].isRecord() {
+				calcOffset += cw.vars[i].vsize
+			}
+		}
 	}
 	write64(cw.bf, calcOffset)
 }
 
+// isRecord returns true if the variable has the unlimited dimension.
+func (saved *savedVar) isRecord() bool {
+	return len(saved.dimLengths) > 0 && saved.dimLengths[0] == 0
+}
+
 func (cw *CDFWriter) computeAttributeSize(attrs api.AttributeMap) int64 {
 	count := int64(0)
 	addLength := func() {
-- 
2.43.0


From 43491ebe7a18aef7034f5f408e52f0fd8bf4cff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 03/35] fix: cdf: name unnamed dimensions wherever they are in
 the list, without writing to the caller's slice

---
 netcdf/cdf/cdfwriter.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 7d1c6fb..6d6a6ec 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -422,21 +422,19 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
 	}
+	dimensions := make([]string, len(dimLengths)) // not the caller's slice
+	copy(dimensions, vr.Dimensions)
 	for i := range dimLengths {
-		var dimName string
-		if i < len(vr.Dimensions) {
-			dimName = vr.Dimensions[i]
-		}
+		dimName := dimensions[i]
 		if dimName == "" {
 			if ty == typeChar && i == len(dimLengths)-1 {
 				dimName = fmt.Sprintf("_stringlen_%s", name)
 			} else {
 				dimName = fmt.Sprintf("_dimid_%d", cw.nextID)
 			}
-			vr.Dimensions = append(vr.Dimensions, dimName)
+			dimensions[i] = dimName
 		}
 
-		dimName = vr.Dimensions[i]
 		currentLength, has := cw.dimLengths[dimName]
 		if has {
 			if dimLengths[i] != currentLength {
@@ -450,7 +448,7 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 		}
 	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		vr.Dimensions, vr.Attributes, 0})
+		dimensions, vr.Attributes, 0})
 	return nil
 }
 
-- 
2.43.0


From 6b3fc7314b0fef043df198d6c5682dab5039fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 04/35] fix: cdf: pad strings to the longest in the whole
 variable, not in its first row

---
 netcdf/cdf/cdfwriter.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 6d6a6ec..e45cdee 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -267,7 +267,8 @@ func (cw *CDFWriter) storeDoubles(val reflect.Value, dimLengths []int64) {
 func (cw *CDFWriter) getDimLengthsHelper(
 	rv reflect.Value,
 	dims []int64,
-	dimNames []string) ([]int64, int) {
+	dimNames []string,
+	longest int64) ([]int64, int) {
 
 	t := rv.Type()
 	kind := cw.scalarKind(t.Kind())
@@ -287,16 +288,10 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	case reflect.Array, reflect.Slice:
 		if t.Elem().Kind() == reflect.String {
 			// special case to longest string
-			maxLen := int64(0)
-			for i := range int(vLen) {
-				if int64(rv.Index(i).Len()) > maxLen {
-					maxLen = int64(rv.Index(i).Len())
-				}
-			}
-			if maxLen == 0 {
+			if longest == 0 {
 				thrower.Throw(ErrEmptySlice)
 			}
-			dims = append(dims, maxLen)
+			dims = append(dims, longest)
 			return dims, typeChar
 		}
 		if vLen == 0 {
@@ -308,7 +303,7 @@ func (cw *CDFWriter) getDimLengthsHelper(
 			}
 			return dims, kind
 		}
-		return cw.getDimLengthsHelper(rv.Index(0), dims, dimNames)
+		return cw.getDimLengthsHelper(rv.Index(0), dims, dimNames, longest)
 
 	case reflect.String:
 		return dims, typeChar // we will make this an array of characters (bytes)
@@ -322,7 +317,25 @@ func (cw *CDFWriter) getDimLengthsHelper(
 func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	v := reflect.ValueOf(val)
 	dims := make([]int64, 0)
-	return cw.getDimLengthsHelper(v, dims, dimNames)
+	return cw.getDimLengthsHelper(v, dims, dimNames, longestString(v))
+}
+
+// longestString returns the length of the longest string in a string or in
+// slices of strings, nested to any level.
+func longestString(rv reflect.Value) int64 {
+	longest := int64(0)
+	switch rv.Kind() {
+	case reflect.String:
+		longest = int64(rv.Len())
+	case reflect.Array, reflect.Slice:
+		switch rv.Type().Elem().Kind() {
+		case reflect.String, reflect.Array, reflect.Slice:
+			for i := range rv.Len() {
+				longest = max(longest, longestString(rv.Index(i)))
+			}
+		}
+	}
+	return longest
 }
 
 func (cw *CDFWriter) scalarKind(goKind reflect.Kind) int {
-- 
2.43.0


From c9eb629e802e7e78b66759fcb48e4a13caab70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 05/35] fix: cdf: refuse values that cannot be stored,
 duplicate names and calls after Close, and leave no trace of a refused call

---
 netcdf/cdf/cdfwriter.go | 112 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 105 insertions(+), 7 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index e45cdee..a5e44b3 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -51,6 +51,7 @@ var (
 	ErrDimensionSize        = errors.New("dimension doesn't match size")
 	ErrInvalidName          = errors.New("invalid name")
 	ErrAttribute            = errors.New("invalid attribute")
+	ErrTooManyUnlimited     = errors.New("only one unlimited dimension is possible")
 	ErrEmptySlice           = errors.New("empty slice encountered")
 )
 
@@ -405,6 +406,9 @@ func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
 	version := cw.version
 	defer func() { cw.version = version }()
 	defer thrower.RecoverError(&err)
+	if cw.file == nil {
+		return os.ErrClosed
+	}
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
@@ -421,50 +425,144 @@ func (cw *CDFWriter) CreateGroup(name string) (api.Writer, error) {
 // AddVar adds a variable to be written out.
 // Use util.NewOrderedMap to create attribute maps for the variable.
 func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
+	version := cw.version
+	defer func() {
+		if err != nil {
+			cw.version = version // it may have been promoted
+		}
+	}()
 	defer thrower.RecoverError(&err)
 
+	if cw.file == nil {
+		return os.ErrClosed
+	}
 	if !internal.IsValidNetCDFName(name) {
 		return ErrInvalidName
 	}
+	for i := range cw.vars {
+		if cw.vars[i].name == name {
+			return ErrDuplicateVariable
+		}
+	}
+	for _, dimName := range vr.Dimensions {
+		// Unlike other names, these may start with an underscore, for example.
+		if dimName != "" && !internal.IsValidNetCDFName("d"+dimName) {
+			return ErrInvalidName
+		}
+	}
 	if !hasValidNames(vr.Attributes) {
 		return ErrInvalidName
 	}
 	cw.checkV5Attributes(vr.Attributes)
+	checkValues(vr.Values)
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
+	if len(vr.Dimensions) > len(dimLengths) {
+		return ErrDimensionSize
+	}
 	switch ty {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
 	}
 	dimensions := make([]string, len(dimLengths)) // not the caller's slice
 	copy(dimensions, vr.Dimensions)
+	var newNames []string // dimensions to add, if all goes well
+	newLengths := make(map[string]int64)
 	for i := range dimLengths {
 		dimName := dimensions[i]
 		if dimName == "" {
-			if ty == typeChar && i == len(dimLengths)-1 {
+			unlimited, has := cw.unlimitedDimension()
+			switch {
+			case dimLengths[i] == 0 && has:
+				dimName = unlimited
+			case ty == typeChar && i == len(dimLengths)-1:
 				dimName = fmt.Sprintf("_stringlen_%s", name)
-			} else {
-				dimName = fmt.Sprintf("_dimid_%d", cw.nextID)
+			default:
+				dimName = fmt.Sprintf("_dimid_%d", cw.nextID+int64(len(newNames)))
 			}
 			dimensions[i] = dimName
 		}
 
 		currentLength, has := cw.dimLengths[dimName]
+		if !has {
+			currentLength, has = newLengths[dimName]
+		}
 		if has {
 			if dimLengths[i] != currentLength {
 				thrower.Throw(ErrDimensionSize)
 			}
 		} else {
-			cw.dimLengths[dimName] = dimLengths[i]
-			cw.dimIds[dimName] = cw.nextID
-			cw.dimNames = append(cw.dimNames, dimName)
-			cw.nextID++
+			if _, has := cw.unlimitedDimension(); has && dimLengths[i] == 0 {
+				thrower.Throw(ErrTooManyUnlimited)
+			}
+			newLengths[dimName] = dimLengths[i]
+			newNames = append(newNames, dimName)
 		}
 	}
+	for _, dimName := range newNames {
+		cw.dimLengths[dimName] = newLengths[dimName]
+		cw.dimIds[dimName] = cw.nextID
+		cw.dimNames = append(cw.dimNames, dimName)
+		cw.nextID++
+	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
 		dimensions, vr.Attributes, 0})
 	return nil
 }
 
+// unlimitedDimension returns the name of the unlimited dimension, if there is one.
+func (cw *CDFWriter) unlimitedDimension() (string, bool) {
+	for _, name := range cw.dimNames {
+		if cw.dimLengths[name] == 0 {
+			return name, true
+		}
+	}
+	return "", false
+}
+
+// checkValues makes sure that val is a scalar of a supported type, or slices of them
+// that have the same length wherever they are nested at the same level.
+func checkValues(val any) {
+	rv := reflect.ValueOf(val)
+	if !rv.IsValid() {
+		thrower.Throw(ErrUnknownType)
+	}
+	t := rv.Type()
+	for t.Kind() == reflect.Slice && t.Name() == "" {
+		t = t.Elem()
+	}
+	switch t {
+	case reflect.TypeFor[string](), reflect.TypeFor[int8](), reflect.TypeFor[uint8](),
+		reflect.TypeFor[int16](), reflect.TypeFor[uint16](), reflect.TypeFor[int32](),
+		reflect.TypeFor[uint32](), reflect.TypeFor[int64](), reflect.TypeFor[uint64](),
+		reflect.TypeFor[float32](), reflect.TypeFor[float64]():
+	default:
+		thrower.Throw(ErrUnknownType)
+	}
+	var lengths []int
+	var check func(rv reflect.Value, level int)
+	check = func(rv reflect.Value, level int) {
+		if rv.Kind() != reflect.Slice {
+			return
+		}
+		if level == len(lengths) {
+			lengths = append(lengths, rv.Len())
+		}
+		if rv.Len() != lengths[level] {
+			thrower.Throw(ErrDimensionSize)
+		}
+		if rv.Len() == 0 && level > 0 {
+			thrower.Throw(ErrEmptySlice)
+		}
+		if rv.Type().Elem().Kind() != reflect.Slice {
+			return
+		}
+		for i := range rv.Len() {
+			check(rv.Index(i), level+1)
+		}
+	}
+	check(rv, 0)
+}
+
 func (cw *CDFWriter) writeAttributes(attrs api.AttributeMap) {
 	if attrs == nil || len(attrs.Keys()) == 0 {
 		write32(cw.bf, 0)        //  attributes: absent
-- 
2.43.0


From 015c6bfcf87a13073b5a64f3799bb6743ada527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 06/35] fix: slices of character variables cover the last
 dimension too

---
 internal/slicer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/slicer.go b/internal/slicer.go
index 9939390..05c233b 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -104,6 +104,10 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 		}
 		return sliced
 	}
+	// The last dimension of character data is the string's
+	if v.Kind() == reflect.String {
+		return reflect.ValueOf(v.String()[begin[0]:end[0]])
+	}
 	// For scalars or base types at the end of recursion
 	return v
 }
-- 
2.43.0


From 19e011e9813b3278451de2d7eeb682f4130ad3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 07/35] fix: cdf: read any rows of record variables, check
 slice bounds, and fill whole elements with a fill value of the right type

---
 netcdf/cdf/cdf.go | 189 +++++++++++++++++++++-------------------------
 1 file changed, 87 insertions(+), 102 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 8700213..af78eed 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -75,7 +75,6 @@ type CDF struct {
 	dimensions   []dimension
 	globalAttrs  *util.OrderedMap
 	vars         *util.OrderedMap
-	specialCase  bool
 	slowConvert  convertType // default is fast
 }
 
@@ -93,6 +92,7 @@ var (
 	ErrDuplicateVariable     = errors.New("duplicate variable")
 	ErrTooManyDimensions     = errors.New("too many dimensions")
 	ErrFillValue             = errors.New("fill value not a scalar")
+	errInvalidSlice          = errors.New("invalid slice parameters")
 )
 
 var (
@@ -413,19 +413,9 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 		// Calculate the vsize actually used, without padding, which is
 		// different than the vsize.  This matters when there is just one
 		// record variable and it is small (special case).
-		switch vType {
-		case typeByte, typeUByte, typeChar:
-			break
-		case typeShort, typeUShort:
-			n *= 2
-		case typeInt, typeUInt, typeFloat:
-			n *= 4
-		case typeDouble, typeInt64, typeUInt64:
-			n *= 8
-		default:
-			thrower.Throw(ErrUnknownType)
-		}
-		cdf.recSize += uint64(vsize)
+		n *= typeSize(vType)
+		// The vsize in the file is redundant and can't be right for big variables.
+		cdf.recSize += roundInt32(n)
 		usedVsize = n
 	}
 	var offset uint64
@@ -518,15 +508,8 @@ func (cdf *CDF) readHeader() (err error) {
 			fmt.Sprint("No record variables, size should be zero: ", cdf.recSize),
 			ErrInternal)
 	case 1:
-		firstLen := uint64(firstRecordVar.vsize)
-		switch firstRecordVar.vType {
-		case typeByte, typeUByte, typeChar:
-			cdf.recSize = 1 * firstLen
-			cdf.specialCase = true
-		case typeShort, typeUShort:
-			cdf.recSize = 2 * firstLen
-			cdf.specialCase = true
-		}
+		// special case: no padding between the records
+		cdf.recSize = uint64(firstRecordVar.vsize)
 	default:
 		newRecSize := roundInt32(cdf.recSize)
 		if newRecSize != cdf.recSize {
@@ -632,7 +615,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 	var chunkSize int64
 	length := int64(0)
 	switch {
-	case len(dimLengths) == 0:
+	case len(dimLengths) == 0: // scalar, one row
 		chunkSize = totalSize
 		length = 1
 	case dimLengths[0] == 0:
@@ -643,50 +626,16 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		length = int64(dimLengths[0])
 	}
 	getSlice := func(begin, end int64) (any, error) {
-		if end < begin {
-			return nil, errors.New("invalid slice parameters")
+		if begin < 0 || end < begin || end > length {
+			return nil, errInvalidSlice
 		}
-		var nChunks int64
-		switch {
-		case len(dimLengths) == 0:
+		nChunks := end - begin
+		if len(dimLengths) == 0 {
 			// scalar
-			nChunks = 1
-		case dimLengths[0] == 0:
-			// unlimited
-			nChunks = 0
-		default:
-			nChunks = int64(end - begin)
-		}
-		sliceSize := int64(1)
-		var start int64
-		var sizeInBytes int64
-
-		sliceSize = nChunks * chunkSize
-		start = begin * chunkSize
-		switch varFound.vType {
-		case typeDouble, typeInt64, typeUInt64:
-			start *= 8
-			sizeInBytes = sliceSize * 8
-		case typeInt, typeFloat, typeUInt:
-			start *= 4
-			sizeInBytes = sliceSize * 4
-		case typeShort, typeUShort:
-			start *= 2
-			sizeInBytes = sliceSize * 2
-		case typeChar, typeByte, typeUByte:
-			sizeInBytes = sliceSize
-		default:
-			thrower.Throw(ErrInternal)
-		}
-
-		var bf io.Reader
-		if unlimited && !cdf.specialCase {
-			bf = cdf.newRecordReader(&varFound, start, sizeInBytes)
-		} else {
-			seekTo(cdf.file, int64(varFound.begin)+start)
-			bf = io.LimitReader(makeFillValueReader(varFound,
-				io.Reader(bufio.NewReader(cdf.file))), sizeInBytes)
+			begin, nChunks = 0, 1
 		}
+		sliceSize := nChunks * chunkSize
+		bf := bytes.NewReader(cdf.readRows(&varFound, unlimited, begin, nChunks, chunkSize))
 
 		// in case of unlimited, should read a record at a time, using cdf.recSize
 		var data any
@@ -747,10 +696,13 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			return nil, ErrTooManyDimensions
 		}
 		for i := range begin {
-			if end[i] < begin[i] {
-				return nil, errors.New("invalid slice parameters")
+			if begin[i] < 0 || end[i] < begin[i] || end[i] > int64(dimLengths[i]) {
+				return nil, errInvalidSlice
 			}
 		}
+		if len(dimLengths) == 0 {
+			return getSlice(0, length)
+		}
 		// Optimize: only read the required range of the first dimension from disk
 		partialData, err := getSlice(begin[0], end[0])
 		if err != nil {
@@ -778,6 +730,22 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		cdlType(varFound.vType), goType(varFound.vType)), nil
 }
 
+// typeSize is the size in the file of one element.
+func typeSize(vType uint32) uint64 {
+	switch vType {
+	case typeByte, typeUByte, typeChar:
+		return 1
+	case typeShort, typeUShort:
+		return 2
+	case typeInt, typeUInt, typeFloat:
+		return 4
+	case typeDouble, typeInt64, typeUInt64:
+		return 8
+	}
+	thrower.Throw(ErrUnknownType)
+	panic("never gets here")
+}
+
 func goType(vType uint32) string {
 	switch vType {
 	case typeByte:
@@ -885,47 +853,54 @@ func (cdf *CDF) GetVariable(name string) (v *api.Variable, err error) {
 		Attributes: sl.Attributes()}, nil
 }
 
-// Seeks and read bytes
-type seekReader struct {
-	file   io.ReadSeeker
-	offset int64
-	reader io.Reader
-}
-
-func (sr *seekReader) Read(p []byte) (int, error) {
-	if sr.reader == nil {
-		seekTo(sr.file, sr.offset)
-		sr.reader = bufio.NewReader(sr.file)
+// readRows reads nRows rows of rowLen elements each, where a row is what there is for
+// one index of the first dimension. The rows of a record variable are recSize bytes
+// apart. Elements that are not in the file get the fill value.
+func (cdf *CDF) readRows(v *variable, isRecord bool, first, nRows, rowLen int64) []byte {
+	elemSize := int64(typeSize(v.vType))
+	rowSize := rowLen * elemSize
+	buf := make([]byte, nRows*rowSize)
+	if len(buf) == 0 {
+		return buf
 	}
-	return sr.reader.Read(p)
-}
-
-func newSeekReader(file io.ReadSeeker, offset int64) io.Reader {
-	return &seekReader{file: file, offset: offset, reader: nil}
+	stride := rowSize
+	perRead := nRows
+	if isRecord && stride != int64(cdf.recSize) {
+		stride = int64(cdf.recSize)
+		perRead = 1
+	}
+	offset := int64(v.begin) + first*stride
+	for b := buf; len(b) > 0; b = b[perRead*rowSize:] {
+		cdf.readFilled(v, offset, b[:perRead*rowSize], int(elemSize))
+		offset += stride
+	}
+	return buf
 }
 
-func (cdf *CDF) newRecordReader(v *variable, start int64, size int64) io.Reader {
-	readers := make([]io.Reader, cdf.numRecs)
-
-	for i := uint64(0); i < uint64(cdf.numRecs) && size > 0; i++ {
-		increment := int64(i) * int64(cdf.recSize)
-		if start > increment {
-			continue
-		}
-		offset := int64(v.begin) + increment
-		begin := offset + start
-		thisSize := v.vsize
-		readers[i] = io.LimitReader(newSeekReader(cdf.file, begin), thisSize)
-		size -= thisSize
-		start = 0
+// readFilled reads from the given offset, and replaces what is past the end of the
+// file with fill values.
+func (cdf *CDF) readFilled(v *variable, offset int64, b []byte, elemSize int) {
+	seekTo(cdf.file, offset)
+	n, err := io.ReadFull(cdf.file, b)
+	switch err {
+	case nil:
+		return
+	case io.EOF, io.ErrUnexpectedEOF:
+		n -= n % elemSize // an element is there as a whole or it isn't
+		_, err = io.ReadFull(makeFillValueReader(*v, bytes.NewReader(nil)), b[n:])
 	}
-	return io.MultiReader(readers...)
+	thrower.ThrowIfError(err)
 }
 
-func emptySlice(v any, dimLengths []uint64) any {
+func emptySlice(v any, dimLengths []uint64, vType uint32) any {
 	top := reflect.ValueOf(v)
 	elemType := top.Type().Elem()
-	var empty reflect.Value
+	if vType == typeChar {
+		// the last dimension becomes a string
+		elemType = reflect.TypeOf("")
+		dimLengths = dimLengths[1:]
+	}
+	empty := reflect.Zero(elemType)
 	for range len(dimLengths) {
 		empty = reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
 		elemType = empty.Type()
@@ -945,7 +920,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 		case typeChar:
 			v := data.([]byte)
-			return string(v[0])
+			return string(v[:1])
 
 		case typeShort:
 			v := data.([]int16)
@@ -1103,7 +1078,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 	v := reflect.ValueOf(data)
 	if v.Len() == 0 {
-		return emptySlice(data, dimLengths)
+		return emptySlice(data, dimLengths, vType)
 	}
 	if len(dimLengths) == 0 {
 		elem := v.Index(0)
@@ -1179,6 +1154,16 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 			}
 			userFV = val.Index(0).Interface()
 		}
+		if s, isString := userFV.(string); isString && len(s) == 1 {
+			userFV = s[0] // a character
+		}
+		wantType := goType(v.vType)
+		if v.vType == typeChar {
+			wantType = "uint8"
+		}
+		if reflect.TypeOf(userFV).String() != wantType {
+			thrower.Throw(ErrFillValue)
+		}
 	}
 	var fillValue []byte
 	switch v.vType {
-- 
2.43.0


From e8c29c45aff92145b04928dbcaf7838e08325300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 08/35] fix: cdf: check sizes in the header, bound memory use
 by what is in the file, lock the shared file

---
 netcdf/cdf/cdf.go | 208 ++++++++++++++++++++++++++--------------------
 1 file changed, 118 insertions(+), 90 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index af78eed..81100b5 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -9,8 +9,10 @@ import (
 	"fmt"
 	"io"
 	"math"
+	"math/bits"
 	"os"
 	"reflect"
+	"sync"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
@@ -67,6 +69,7 @@ const (
 
 type CDF struct {
 	fname        string
+	mu           sync.Mutex // for the file and its reference count
 	file         api.ReadSeekerCloser
 	fileRefCount int
 	version      uint8
@@ -80,6 +83,10 @@ type CDF struct {
 
 const maxDimensions = 1024
 
+// How much memory may be spent on a read for what isn't in the file (fill values and
+// slice headers). Bigger ones have to be read in smaller slices.
+const maxUnbacked = 64 << 20
+
 var (
 	ErrNotCDF                = errors.New("not a CDF file")
 	ErrUnsupportedVersion    = errors.New("unsupported CDF version")
@@ -177,11 +184,30 @@ func assert(condition bool, message string, err error) {
 	fail(message, err)
 }
 
-// Read up to nBytes
+// Multiplies two sizes, which must give something that fits in a signed number.
+func mulSize(a, b uint64) uint64 {
+	hi, lo := bits.Mul64(a, b)
+	assert(hi == 0 && lo <= math.MaxInt64, "size too big", ErrCorruptedFile)
+	return lo
+}
+
+// Adds two sizes, which must give something that fits in a signed number.
+func addSize(a, b uint64) uint64 {
+	assert(a <= math.MaxInt64 && b <= math.MaxInt64-a, "size too big", ErrCorruptedFile)
+	return a + b
+}
+
+// Reads nBytes, which may be a corrupted number: memory use is limited by what's
+// really there.
 func readBytes(r io.Reader, nBytes uint64) []byte {
-	b := make([]byte, nBytes)
-	util.MustReadBE(r, b)
-	return b
+	assert(nBytes <= math.MaxInt64, "size too big", ErrCorruptedFile)
+	var buf bytes.Buffer
+	n, err := io.CopyN(&buf, r, int64(nBytes))
+	if err == io.EOF && n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	thrower.ThrowIfError(err)
+	return buf.Bytes()
 }
 
 func read8(r io.Reader) byte {
@@ -229,102 +255,57 @@ func (cdf *CDF) getAttr(bf io.Reader) (string, any) {
 	name := cdf.readName(bf)
 	vType := read32(bf)
 	nvars := cdf.readNumber(bf)
-	nread := uint64(0)
+	switch vType {
+	case typeUByte, typeUShort, typeUInt, typeInt64, typeUInt64:
+		cdf.checkVersion(5)
+	case typeByte, typeChar, typeShort, typeInt, typeFloat, typeDouble:
+		break
+	default:
+		fail(fmt.Sprint("corrupted file, unknown type: ", vType),
+			ErrCorruptedFile)
+	}
+	raw := readBytes(bf, mulSize(nvars, typeSize(vType)))
+	// padding
+	readBytes(bf, roundInt32(uint64(len(raw)))-uint64(len(raw)))
 	var values any
 	switch vType {
 	case typeByte:
 		// byte becomes int8 in go-speak
-		b := make([]int8, nvars)
-		util.MustReadBE(bf, b)
-		values = b
-		nread += nvars
+		values = make([]int8, nvars)
 
 	case typeChar:
 		// char array becomes string in go-speak
-		b := make([]byte, nvars)
-		util.MustReadBE(bf, b)
-		values = string(b)
-		nread += nvars
+		return name, string(raw)
 
 	case typeShort:
-		sv := make([]int16, nvars)
-		util.MustReadBE(bf, sv)
-		values = sv
-		nread += 2 * nvars
+		values = make([]int16, nvars)
 
 	case typeInt:
-		i32v := make([]int32, nvars)
-		util.MustReadBE(bf, i32v)
-		values = i32v
-		nread += 4 * nvars
+		values = make([]int32, nvars)
 
 	case typeFloat:
-		fv := make([]float32, nvars)
-		util.MustReadBE(bf, fv)
-		values = fv
-		nread += 4 * nvars
+		values = make([]float32, nvars)
 
 	case typeDouble:
-		dv := make([]float64, nvars)
-		util.MustReadBE(bf, dv)
-		values = dv
-		nread += 8 * nvars
+		values = make([]float64, nvars)
 
 	case typeUByte:
-		cdf.checkVersion(5)
 		// unsigned byte becomes uint8 in go-speak
-		b := make([]uint8, nvars)
-		for i := range b {
-			b[i] = uint8(read8(bf))
-		}
-		values = b
-		nread += nvars
+		values = make([]uint8, nvars)
 
 	case typeUShort:
-		cdf.checkVersion(5)
-		sv := make([]uint16, nvars)
-		for i := range sv {
-			sv[i] = read16(bf)
-		}
-		values = sv
-		nread += 2 * nvars
+		values = make([]uint16, nvars)
 
 	case typeUInt:
-		cdf.checkVersion(5)
-		i32v := make([]uint32, nvars)
-		for i := range i32v {
-			i32v[i] = read32(bf)
-		}
-		values = i32v
-		nread += 4 * nvars
+		values = make([]uint32, nvars)
 
 	case typeInt64:
-		cdf.checkVersion(5)
-		i64v := make([]int64, nvars)
-		for i := range i64v {
-			i64v[i] = int64(read64(bf))
-		}
-		values = i64v
-		nread += 8 * nvars
+		values = make([]int64, nvars)
 
 	case typeUInt64:
-		cdf.checkVersion(5)
-		i64v := make([]uint64, nvars)
-		for i := range i64v {
-			i64v[i] = read64(bf)
-		}
-		values = i64v
-		nread += 8 * nvars
-
-	default:
-		fail(fmt.Sprint("corrupted file, unknown type: ", vType),
-			ErrCorruptedFile)
-	}
-	// padding
-	for nread&0x3 != 0 {
-		_ = read8(bf)
-		nread++
+		values = make([]uint64, nvars)
 	}
+	util.MustReadBE(bytes.NewReader(raw), values)
 	// If just one value in an attribute value slice, return it as a scalar
 	val := reflect.ValueOf(values)
 	if val.Kind() == reflect.Slice && val.Len() == 1 {
@@ -368,6 +349,7 @@ func (cdf *CDF) getAttrList(bf io.Reader) *util.OrderedMap {
 
 func (cdf *CDF) readName(bf io.Reader) string {
 	nameLen := cdf.readNumber(bf)
+	assert(nameLen <= math.MaxInt64-3, "name too long", ErrCorruptedFile)
 	b := readBytes(bf, roundInt32(nameLen))
 	for i := uint64(0); i < nameLen; i++ {
 		if b[i] == 0 {
@@ -382,6 +364,7 @@ func (cdf *CDF) readName(bf io.Reader) string {
 func (cdf *CDF) getDim(bf io.Reader) dimension {
 	name := cdf.readName(bf)
 	dimLength := cdf.readNumber(bf)
+	assert(dimLength <= math.MaxInt64, "dimension too long", ErrCorruptedFile)
 	return dimension{name, dimLength}
 }
 
@@ -399,6 +382,9 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 	for i := uint64(0); i < nDims; i++ {
 		// dimid
 		dimids[i] = cdf.readNumber(bf)
+		assert(dimids[i] < uint64(len(cdf.dimensions)),
+			fmt.Sprint(name, " dimid: ", dimids[i], " not found"),
+			ErrCorruptedFile)
 	}
 	attrs := cdf.getAttrList(bf)
 	vType := read32(bf)
@@ -406,16 +392,15 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 	usedVsize := vsize
 	// if unlimited, add vsize to current record size
 	if nDims > 0 && cdf.hasUnlimitedDimension(dimids) {
-		n := uint64(1)
+		n := typeSize(vType)
 		for i := 1; i < len(dimids); i++ {
-			n *= cdf.dimensions[dimids[i]].dimLength
+			n = mulSize(n, cdf.dimensions[dimids[i]].dimLength)
 		}
 		// Calculate the vsize actually used, without padding, which is
 		// different than the vsize.  This matters when there is just one
 		// record variable and it is small (special case).
-		n *= typeSize(vType)
 		// The vsize in the file is redundant and can't be right for big variables.
-		cdf.recSize += roundInt32(n)
+		cdf.recSize = addSize(cdf.recSize, roundInt32(n))
 		usedVsize = n
 	}
 	var offset uint64
@@ -464,6 +449,7 @@ func (cdf *CDF) readHeader() (err error) {
 	assert(numRecs != 0xffffffffffffffff,
 		"streaming not supported",
 		ErrNoStreamingDimensions)
+	assert(numRecs <= math.MaxInt64, "too many records", ErrCorruptedFile)
 	cdf.numRecs = numRecs
 
 	// dimlist
@@ -524,6 +510,8 @@ func (cdf *CDF) readHeader() (err error) {
 // longer being used by any other groups.
 func (cdf *CDF) Close() {
 	defer thrower.RecoverError(nil)
+	cdf.mu.Lock()
+	defer cdf.mu.Unlock()
 	assert(cdf.fileRefCount > 0, "ref count off", ErrInternal)
 	cdf.fileRefCount--
 	if cdf.fileRefCount == 0 {
@@ -544,6 +532,11 @@ func (cdf *CDF) GetGroup(group string) (g api.Group, err error) {
 	if group != "" && group != "/" {
 		return nil, ErrNotFound
 	}
+	cdf.mu.Lock()
+	defer cdf.mu.Unlock()
+	if cdf.fileRefCount == 0 {
+		return nil, os.ErrClosed
+	}
 	cdf.fileRefCount++
 	return api.Group(cdf), nil
 }
@@ -591,7 +584,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 	dimLengths := make([]uint64, len(varFound.dimids))
 	dimNames := make([]string, len(varFound.dimids))
 
-	totalSize := int64(1)
+	totalSize := typeSize(varFound.vType) // in bytes
 	unlimited := false
 	for i := range dimLengths {
 		dimid := varFound.dimids[i]
@@ -610,19 +603,21 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			dimLengths[i] = cdf.numRecs
 		}
 		dimNames[i] = dim.name
-		totalSize *= int64(dimLengths[i])
+		totalSize = mulSize(totalSize, dimLengths[i])
 	}
+	addSize(varFound.begin, totalSize)
+	totalElems := int64(totalSize / typeSize(varFound.vType))
 	var chunkSize int64
 	length := int64(0)
 	switch {
 	case len(dimLengths) == 0: // scalar, one row
-		chunkSize = totalSize
+		chunkSize = totalElems
 		length = 1
 	case dimLengths[0] == 0:
-		chunkSize = totalSize
+		chunkSize = totalElems
 		length = 0
 	default:
-		chunkSize = totalSize / int64(dimLengths[0])
+		chunkSize = totalElems / int64(dimLengths[0])
 		length = int64(dimLengths[0])
 	}
 	getSlice := func(begin, end int64) (any, error) {
@@ -635,7 +630,11 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			begin, nChunks = 0, 1
 		}
 		sliceSize := nChunks * chunkSize
-		bf := bytes.NewReader(cdf.readRows(&varFound, unlimited, begin, nChunks, chunkSize))
+		raw, err := cdf.readRows(&varFound, unlimited, begin, nChunks, chunkSize, dimLengths)
+		if err != nil {
+			return nil, err
+		}
+		bf := bytes.NewReader(raw)
 
 		// in case of unlimited, should read a record at a time, using cdf.recSize
 		var data any
@@ -676,7 +675,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		default:
 			fail("unknown type", ErrUnknownType)
 		}
-		err := binary.Read(bf, binary.BigEndian, data)
+		err = binary.Read(bf, binary.BigEndian, data)
 		if err != nil {
 			return nil, err
 		}
@@ -856,12 +855,13 @@ func (cdf *CDF) GetVariable(name string) (v *api.Variable, err error) {
 // readRows reads nRows rows of rowLen elements each, where a row is what there is for
 // one index of the first dimension. The rows of a record variable are recSize bytes
 // apart. Elements that are not in the file get the fill value.
-func (cdf *CDF) readRows(v *variable, isRecord bool, first, nRows, rowLen int64) []byte {
+func (cdf *CDF) readRows(v *variable, isRecord bool, first, nRows, rowLen int64,
+	dimLengths []uint64) (buf []byte, err error) {
+	defer thrower.RecoverError(&err)
 	elemSize := int64(typeSize(v.vType))
 	rowSize := rowLen * elemSize
-	buf := make([]byte, nRows*rowSize)
-	if len(buf) == 0 {
-		return buf
+	if nRows*rowSize == 0 {
+		return nil, nil
 	}
 	stride := rowSize
 	perRead := nRows
@@ -869,12 +869,40 @@ func (cdf *CDF) readRows(v *variable, isRecord bool, first, nRows, rowLen int64)
 		stride = int64(cdf.recSize)
 		perRead = 1
 	}
-	offset := int64(v.begin) + first*stride
+	begin := addSize(v.begin, mulSize(uint64(first), uint64(stride)))
+	end := addSize(begin, mulSize(uint64(nRows), uint64(stride)))
+	offset := int64(begin)
+
+	cdf.mu.Lock()
+	defer cdf.mu.Unlock()
+	if cdf.file == nil {
+		return nil, os.ErrClosed
+	}
+	fileSize, err := cdf.file.Seek(0, io.SeekEnd)
+	thrower.ThrowIfError(err)
+	if int64(end) > fileSize {
+		missing := nRows * rowSize
+		if offset < fileSize {
+			missing -= (fileSize - offset) / stride * rowSize
+		}
+		assert(missing <= maxUnbacked, "too much data missing", ErrCorruptedFile)
+	}
+	nSlices, nHeaders := uint64(nRows), uint64(0)
+	for i := 1; i < len(dimLengths); i++ {
+		nHeaders = addSize(nHeaders, nSlices)
+		nSlices = mulSize(nSlices, dimLengths[i])
+	}
+	assert(nHeaders <= (maxUnbacked+64*uint64(fileSize))/24, "too many slices", ErrCorruptedFile)
+
+	buf = make([]byte, nRows*rowSize)
 	for b := buf; len(b) > 0; b = b[perRead*rowSize:] {
+		if offset >= fileSize {
+			perRead = int64(len(b)) / rowSize // all the rest is missing
+		}
 		cdf.readFilled(v, offset, b[:perRead*rowSize], int(elemSize))
 		offset += stride
 	}
-	return buf
+	return buf, nil
 }
 
 // readFilled reads from the given offset, and replaces what is past the end of the
-- 
2.43.0


From 4d1547783078cb5c49c52d6972a07eb8f2e3c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 09/35] fix: hdf5: refuse what cannot be stored faithfully and
 names in use, leave no trace of a refused call, and name unnamed dimensions

---
 netcdf/hdf5/hdf5writer.go | 442 ++++++++++++++++++++++++++------------
 1 file changed, 307 insertions(+), 135 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ddc9f2d..6616289 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"reflect"
 	"slices"
+	"strings"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
@@ -16,13 +17,28 @@ import (
 )
 
 var (
-	ErrInvalidName = errors.New("invalid name")
+	ErrInvalidName     = errors.New("invalid name")
+	errNameInUse       = errors.New("name already in use")
+	errReservedName    = errors.New("attribute name is reserved by the format")
+	errDimensionSize   = errors.New("dimension has another size or use elsewhere")
+	errNotRectangular  = errors.New("values do not match the dimensions")
+	errNulInString     = errors.New("string with an embedded NUL")
+	errTooBig          = errors.New("too big for an object header")
+	errClosed          = errors.New("writer is closed")
+	errTooManyElements = errors.New("too many dimensions")
 )
 
+// maxMessageSize is the limit for the data of a message in an object header.
+const maxMessageSize = 0xffff
+
+// maxRank is the limit the format sets for the number of dimensions.
+const maxRank = 32
+
 type h5Var struct {
 	name            string
 	val             any
 	dimensions      []string
+	shape           []uint64 // one for each dimension
 	attributes      api.AttributeMap
 	addr            uint64
 	isDimScale      bool
@@ -57,6 +73,7 @@ type HDF5Writer struct {
 	root            *h5Group
 	heap            *h5GlobalHeap
 	closed          bool
+	dimSizes        map[string]uint64 // sizes of the dimensions, which all are in the root group
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
 	vlenHeapIndices []uint32 // per-variable vlen heap indices during data write
@@ -134,6 +151,8 @@ func (hw *HDF5Writer) addNCProperties() {
 // createDimensionScales collects all unique dimensions from variables
 // and creates dimension scale variables for each one.
 func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
+	nUnnamed := 0
+	unnamed := make(map[uint64][]string) // by size
 	type dimInfo struct {
 		name string
 		size uint64
@@ -154,17 +173,31 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 			if v.isDimScale {
 				continue
 			}
-			shape := hw.getDimensions(v.val)
+			nextOfSize := make(map[uint64]int)
 			for i, dname := range v.dimensions {
-				if dname == "" || seen[dname] {
+				if dname == "" {
+					// make up a name, or use one made up for another variable
+					size := v.shape[i]
+					next := nextOfSize[size]
+					nextOfSize[size]++
+					if next == len(unnamed[size]) {
+						newName := ""
+						for has := true; has; nUnnamed++ {
+							newName = fmt.Sprintf("_dimid_%d", nUnnamed)
+							_, has = hw.dimSizes[newName]
+						}
+						hw.dimSizes[newName] = size
+						unnamed[size] = append(unnamed[size], newName)
+					}
+					dname = unnamed[size][next]
+					v.dimensions = slices.Clone(v.dimensions)
+					v.dimensions[i] = dname
+				}
+				if seen[dname] {
 					continue
 				}
 				seen[dname] = true
-				var size uint64
-				if i < len(shape) {
-					size = shape[i]
-				}
-				dims = append(dims, dimInfo{dname, size})
+				dims = append(dims, dimInfo{dname, v.shape[i]})
 			}
 		}
 		var groupNames []string
@@ -217,6 +250,7 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 				name:       d.name,
 				val:        make([]int8, d.size),
 				dimensions: []string{d.name},
+				shape:      []uint64{d.size},
 				attributes: dimAttrs,
 				isDimScale: true,
 			}
@@ -381,11 +415,7 @@ func (hw *HDF5Writer) writeSuperblockV2() {
 func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize uint64) {
 	nDims := len(v.dimensions)
 	dtMsg := hw.buildDatatypeMessage(v.val, nDims)
-	rv := reflect.ValueOf(v.val)
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
-	}
-	dsMsg := buildDataspaceMessage(getDimensionsLimited(rv, nDims))
+	dsMsg := buildDataspaceMessage(v.shape)
 	layoutMsg := hw.buildLayoutMessageV2(dataAddr, dataSize)
 
 	messages := []h5Message{
@@ -829,31 +859,12 @@ func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32)
 		return
 	}
 
-	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return
-		}
-		// Check if elements are slices with varying lengths (vlen)
-		if rv.Len() > 0 && rv.Index(0).Kind() == reflect.Slice {
-			isVlen := false
-			if rv.Len() > 1 {
-				firstLen := rv.Index(0).Len()
-				for i := 1; i < rv.Len(); i++ {
-					if rv.Index(i).Len() != firstLen {
-						isVlen = true
-						break
-					}
-				}
-			}
-			if isVlen {
-				for i := range rv.Len() {
-					hw.serializeVlenToHeap(rv.Index(i), indices)
-				}
-				return
-			}
-		}
-		// Regular array: recurse into elements
+	if isNesting(rv.Type()) {
 		for i := range rv.Len() {
+			if isNesting(rv.Index(i).Type()) {
+				hw.serializeVlenToHeap(rv.Index(i), indices)
+				continue
+			}
 			hw.collectVlenFromValue(rv.Index(i), indices)
 		}
 	}
@@ -890,33 +901,12 @@ func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 	if e, ok := rv.Interface().(enumerated); ok {
 		return hw.getAttributeDimensions(e.values)
 	}
-	var dims []uint64
+	// NetCDF attributes have one dimension at most, the next level is variable-length.
 	nDims := 0
-	for rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			break
-		}
-		dims = append(dims, uint64(rv.Len()))
-		nDims++
-		if rv.Len() == 0 {
-			break
-		}
-		// Check if inner elements have varying lengths (= vlen boundary)
-		if rv.Len() > 1 && rv.Index(0).Kind() == reflect.Slice {
-			firstLen := rv.Index(0).Len()
-			isVlen := false
-			for i := 1; i < rv.Len(); i++ {
-				if rv.Index(i).Len() != firstLen {
-					isVlen = true
-					break
-				}
-			}
-			if isVlen {
-				break
-			}
-		}
-		rv = rv.Index(0)
+	if isNesting(rv.Type()) {
+		nDims = 1
 	}
+	dims, _, _ := rectangle(rv, nDims)
 	return dims, nDims
 }
 
@@ -1050,131 +1040,312 @@ func getDimensionsLimited(rv reflect.Value, maxDepth int) []uint64 {
 	return nil
 }
 
-func (hw *HDF5Writer) AddAttributes(attrs api.AttributeMap) error {
-	if !hasValidNames(attrs) {
-		return ErrInvalidName
+// rectangle returns the extents of the first nDims levels of a value, and the
+// elements below them. All slices of a level must have the same length. The extents
+// below an empty slice aren't known, and are returned as zero.
+func rectangle(rv reflect.Value, nDims int) (shape []uint64, elems []reflect.Value, ok bool) {
+	if e, isEnum := rv.Interface().(enumerated); isEnum {
+		return rectangle(reflect.ValueOf(e.values), nDims)
+	}
+	if nDims == 0 {
+		return nil, []reflect.Value{rv}, true
+	}
+	if !isNesting(rv.Type()) {
+		return nil, nil, false
 	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
+	if rv.Len() == 0 {
+		t := rv.Type()
+		for range nDims {
+			if !isNesting(t) {
+				return nil, nil, false
+			}
+			t = t.Elem()
+		}
+		return make([]uint64, nDims), nil, true
+	}
+	for i := range rv.Len() {
+		innerShape, innerElems, ok := rectangle(rv.Index(i), nDims-1)
+		if !ok || (i > 0 && !slices.Equal(innerShape, shape)) {
+			return nil, nil, false
+		}
+		shape = innerShape
+		elems = append(elems, innerElems...)
+	}
+	return append([]uint64{uint64(rv.Len())}, shape...), elems, true
+}
+
+// isNesting returns true for slices and arrays that are not values by themselves.
+func isNesting(t reflect.Type) bool {
+	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) &&
+		t != reflect.TypeOf(compound{}) && t != reflect.TypeOf(opaque{})
+}
+
+// leafType returns the type below all the slices, and how many there are of them.
+func leafType(t reflect.Type) (leaf reflect.Type, depth int) {
+	for isNesting(t) {
+		t = t.Elem()
+		depth++
+	}
+	return t, depth
+}
+
+// checkElems checks the elements below the dimensions: they are all of the same kind,
+// and if they are slices (of variable length) they must have storable elements.
+func checkElems(elems []reflect.Value) error {
+	for _, rv := range elems {
+		if rv.Kind() == reflect.String && strings.Contains(strings.TrimRight(rv.String(), "\x00"), "\x00") {
+			return errNulInString
+		}
+		if !isNesting(rv.Type()) {
+			if !isSupportedType(rv.Interface()) {
+				return fmt.Errorf("%w: %v", ErrUnsupportedType, rv.Type())
+			}
+			continue
+		}
+		t := rv.Type().Elem()
+		if isNesting(t) || t.Kind() == reflect.String {
+			return errNotRectangular
+		}
+		for i := range rv.Len() {
+			if !isSupportedType(rv.Index(i).Interface()) {
+				return fmt.Errorf("%w: %v", ErrUnsupportedType, t)
 			}
 		}
 	}
-	hw.root.attributes = attrs
 	return nil
 }
 
-func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
-	if !internal.IsValidNetCDFName(name) {
-		return ErrInvalidName
+// checkAttributes checks that all the attributes can be stored.
+func (hw *HDF5Writer) checkAttributes(attrs api.AttributeMap) (err error) {
+	defer thrower.RecoverError(&err)
+	if attrs == nil {
+		return nil
 	}
-	if !hasValidNames(vr.Attributes) {
+	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
-	if !isSupportedType(vr.Values) {
-		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
-	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
+	seen := map[string]bool{}
+	for _, k := range attrs.Keys() {
+		switch k {
+		case "CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST":
+			return errReservedName
+		}
+		if seen[k] {
+			return errNameInUse
+		}
+		seen[k] = true
+		v, _ := attrs.Get(k)
+		if !isSupportedType(v) {
+			return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
+		}
+		dims, nDims := hw.getAttributeDimensions(v)
+		_, elems, ok := rectangle(reflect.ValueOf(v), nDims)
+		if !ok {
+			return errNotRectangular
+		}
+		if err := checkElems(elems); err != nil {
+			return err
+		}
+		dt := hw.buildDatatypeMessage(v, nDims)
+		size := 8 + roundUp8(len(k)+1) + roundUp8(len(dt)) + roundUp8(len(buildDataspaceMessage(dims)))
+		for _, e := range elems {
+			switch {
+			case e.Kind() == reflect.String && nDims == 0:
+				size += e.Len() + 1
+			case e.Kind() >= reflect.Int8 && e.Kind() <= reflect.Float64:
+				size += int(e.Type().Size())
+			default:
+				size += calcFieldSize(e.Interface())
 			}
 		}
-	}
-	hw.root.vars[name] = &h5Var{
-		name:       name,
-		val:        vr.Values,
-		dimensions: vr.Dimensions,
-		attributes: vr.Attributes,
+		if size > maxMessageSize {
+			return fmt.Errorf("%w: %s", errTooBig, k)
+		}
 	}
 	return nil
 }
 
-func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
-	if !internal.IsValidNetCDFName(name) {
-		return nil, ErrInvalidName
-	}
-	if g, ok := hw.root.groups[name]; ok {
-		return &groupWriter{hw: hw, group: g}, nil
+func roundUp8(n int) int {
+	return (n + 7) &^ 7
+}
+
+func (hw *HDF5Writer) addAttributes(g *h5Group, attrs api.AttributeMap) error {
+	if hw.closed {
+		return errClosed
 	}
-	g := &h5Group{
-		name:   name,
-		groups: make(map[string]*h5Group),
-		vars:   make(map[string]*h5Var),
+	if err := hw.checkAttributes(attrs); err != nil {
+		return err
 	}
-	hw.root.groups[name] = g
-	return &groupWriter{hw: hw, group: g}, nil
+	g.attributes = attrs
+	return nil
 }
 
-type groupWriter struct {
-	hw    *HDF5Writer
-	group *h5Group
+func (hw *HDF5Writer) AddAttributes(attrs api.AttributeMap) error {
+	return hw.addAttributes(hw.root, attrs)
 }
 
-func (gw *groupWriter) Close() error {
+// checkName checks that something with this name can be added to a group.
+func (hw *HDF5Writer) checkName(g *h5Group, name string) error {
+	if hw.closed {
+		return errClosed
+	}
+	if !internal.IsValidNetCDFName(name) || len(name) > maxMessageSize/2 {
+		return ErrInvalidName
+	}
+	if _, has := g.vars[name]; has {
+		return errNameInUse
+	}
 	return nil
 }
 
-func (gw *groupWriter) AddAttributes(attrs api.AttributeMap) error {
-	if !hasValidNames(attrs) {
-		return ErrInvalidName
+// checkDimensions returns the shape of the values, if it agrees with the dimensions
+// there are.
+func (hw *HDF5Writer) checkDimensions(g *h5Group, name string, vr api.Variable) ([]uint64, error) {
+	nDims := len(vr.Dimensions)
+	if nDims > maxRank {
+		return nil, errTooManyElements
 	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
+	shape, elems, ok := rectangle(reflect.ValueOf(vr.Values), nDims)
+	if !ok {
+		return nil, errNotRectangular
+	}
+	if err := checkElems(elems); err != nil {
+		return nil, err
+	}
+	isCoordinate := func(varName string, dimensions []string) bool {
+		return len(dimensions) == 1 && dimensions[0] == varName
+	}
+	sizes := map[string]uint64{}
+	known := true // extents below a zero one aren't known
+	for i, d := range vr.Dimensions {
+		if d == "" {
+			known = known && shape[i] != 0
+			continue
+		}
+		if !internal.IsValidNetCDFName("d"+d) || len(d) > maxMessageSize/2 {
+			return nil, ErrInvalidName
+		}
+		size, has := hw.dimSizes[d]
+		if !has {
+			size, has = sizes[d]
+		}
+		if has && !known {
+			shape[i] = size
+		}
+		if has && size != shape[i] {
+			return nil, fmt.Errorf("%w: %s", errDimensionSize, d)
+		}
+		sizes[d] = shape[i]
+		known = known && shape[i] != 0
+		// Dimensions are in the root group, where only their coordinate variables
+		// can have the same name.
+		if _, has := hw.root.groups[d]; has {
+			return nil, fmt.Errorf("%w: %s", errNameInUse, d)
+		}
+		v, has := hw.root.vars[d]
+		if has && !isCoordinate(d, v.dimensions) {
+			return nil, fmt.Errorf("%w: %s", errDimensionSize, d)
 		}
 	}
-	gw.group.attributes = attrs
-	return nil
+	_, isDim := hw.dimSizes[name]
+	_, isOwnDim := sizes[name]
+	if g == hw.root && (isDim || isOwnDim) && !isCoordinate(name, vr.Dimensions) {
+		return nil, fmt.Errorf("%w: %s", errDimensionSize, name)
+	}
+	if len(hw.buildDatatypeMessage(vr.Values, nDims)) > maxMessageSize {
+		return nil, errTooBig
+	}
+	return shape, nil
 }
 
-func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
-	if !internal.IsValidNetCDFName(name) {
-		return ErrInvalidName
+func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) (err error) {
+	defer thrower.RecoverError(&err)
+	if err := hw.checkName(g, name); err != nil {
+		return err
 	}
-	if !hasValidNames(vr.Attributes) {
-		return ErrInvalidName
+	if _, has := g.groups[name]; has {
+		return errNameInUse
+	}
+	if err := hw.checkAttributes(vr.Attributes); err != nil {
+		return err
 	}
 	if !isSupportedType(vr.Values) {
 		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
 	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
+	if t, depth := leafType(reflect.TypeOf(vr.Values)); t.Kind() == reflect.String {
+		// Strings can't be elements of variable-length types, so the dimensions left
+		// out are unnamed ones.
+		dimensions := slices.Clone(vr.Dimensions)
+		for len(dimensions) < depth {
+			dimensions = append(dimensions, "")
+		}
+		vr.Dimensions = dimensions
+	}
+	shape, err := hw.checkDimensions(g, name, vr)
+	if err != nil {
+		return err
+	}
+	for i, d := range vr.Dimensions {
+		if d != "" {
+			hw.dimSizes[d] = shape[i]
 		}
 	}
-	gw.group.vars[name] = &h5Var{
+	g.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
 		dimensions: vr.Dimensions,
+		shape:      shape,
 		attributes: vr.Attributes,
 	}
 	return nil
 }
 
-func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
-	if !internal.IsValidNetCDFName(name) {
-		return nil, ErrInvalidName
+func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
+	return hw.addVar(hw.root, name, vr)
+}
+
+func (hw *HDF5Writer) createGroup(parent *h5Group, name string) (api.Writer, error) {
+	if err := hw.checkName(parent, name); err != nil {
+		return nil, err
 	}
-	if g, ok := gw.group.groups[name]; ok {
-		return &groupWriter{hw: gw.hw, group: g}, nil
+	if g, ok := parent.groups[name]; ok {
+		return &groupWriter{hw: hw, group: g}, nil
+	}
+	if _, isDim := hw.dimSizes[name]; isDim && parent == hw.root {
+		return nil, fmt.Errorf("%w: %s", errNameInUse, name)
 	}
 	g := &h5Group{
 		name:   name,
 		groups: make(map[string]*h5Group),
 		vars:   make(map[string]*h5Var),
 	}
-	gw.group.groups[name] = g
-	return &groupWriter{hw: gw.hw, group: g}, nil
+	parent.groups[name] = g
+	return &groupWriter{hw: hw, group: g}, nil
+}
+
+func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
+	return hw.createGroup(hw.root, name)
+}
+
+type groupWriter struct {
+	hw    *HDF5Writer
+	group *h5Group
+}
+
+func (gw *groupWriter) Close() error {
+	return nil
+}
+
+func (gw *groupWriter) AddAttributes(attrs api.AttributeMap) error {
+	return gw.hw.addAttributes(gw.group, attrs)
+}
+
+func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
+	return gw.hw.addVar(gw.group, name, vr)
+}
+
+func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
+	return gw.hw.createGroup(gw.group, name)
 }
 
 // isSupportedType checks whether val is a type the HDF5/NetCDF4 writer can
@@ -1276,6 +1447,7 @@ func OpenWriter(fileName string) (api.Writer, error) {
 		file:      file,
 		buf:       new(bytes.Buffer),
 		byteOrder: util.NativeByteOrder,
+		dimSizes:  make(map[string]uint64),
 		root: &h5Group{
 			name:       "/",
 			groups:     make(map[string]*h5Group),
-- 
2.43.0


From 89a1999572ff545ddb29a4eae18d0ef2c168ac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 10/35] fix: hdf5: write the global heap first and in the same
 order every time, in as many collections as needed, with nested
 variable-length types

---
 netcdf/hdf5/hdf5writer.go   | 555 ++++++++++++++----------------------
 netcdf/hdf5/writer_utils.go |  90 +++---
 2 files changed, 266 insertions(+), 379 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 6616289..330be60 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"maps"
 	"os"
 	"reflect"
 	"slices"
@@ -22,6 +23,7 @@ var (
 	errReservedName    = errors.New("attribute name is reserved by the format")
 	errDimensionSize   = errors.New("dimension has another size or use elsewhere")
 	errNotRectangular  = errors.New("values do not match the dimensions")
+	errMixedTypes      = errors.New("elements have different types")
 	errNulInString     = errors.New("string with an embedded NUL")
 	errTooBig          = errors.New("too big for an object header")
 	errClosed          = errors.New("writer is closed")
@@ -42,8 +44,8 @@ type h5Var struct {
 	attributes      api.AttributeMap
 	addr            uint64
 	isDimScale      bool
-	vlenHeapIndices []uint32            // heap indices for vlen elements
-	attrVlenIndices map[string][]uint32 // per-attribute vlen heap indices
+	vlenRefs        []heapRef            // where the vlen elements are
+	attrVlenRefs    map[string][]heapRef // per-attribute vlen elements
 }
 
 type h5Group struct {
@@ -52,13 +54,22 @@ type h5Group struct {
 	vars            map[string]*h5Var
 	attributes      api.AttributeMap
 	addr            uint64
-	attrVlenIndices map[string][]uint32 // per-attribute vlen heap indices
+	attrVlenRefs    map[string][]heapRef // per-attribute vlen elements
 }
 
+// heapRef tells where an object is in the global heap.
+type heapRef struct {
+	addr  uint64 // of its collection
+	index uint32 // in the collection
+}
+
+// h5GlobalHeap is a sequence of collections, which are written as objects get added.
 type h5GlobalHeap struct {
-	addr    uint64
-	objects [][]byte
-	indices map[string]uint32
+	addr    uint64 // of the current collection
+	nObject uint32 // number of objects in it
+	strings map[string]heapRef
+	dims    map[string]heapRef
+	dimPos  map[string]int // position of the data of a dimension reference
 }
 
 type h5Message struct {
@@ -76,8 +87,7 @@ type HDF5Writer struct {
 	dimSizes        map[string]uint64 // sizes of the dimensions, which all are in the root group
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
-	vlenHeapIndices []uint32 // per-variable vlen heap indices during data write
-	vlenPos         int      // counter into vlenHeapIndices during data write
+	vlenRefs        []heapRef // vlen elements not written yet, during data write
 }
 
 func (hw *HDF5Writer) Close() (err error) {
@@ -95,18 +105,23 @@ func (hw *HDF5Writer) Close() (err error) {
 	// 1. Write Superblock V2 (48 bytes)
 	hw.writeSuperblockV2()
 
-	// 2. Write dimension scale variable data and OHs first,
-	//    so we know their addresses for DIMENSION_LIST references.
-	hw.writeDimScaleContents(hw.root)
-
-	// 3. Collect strings, vlen data, and dimension references, then write global heap
-	hw.heap = &h5GlobalHeap{indices: make(map[string]uint32)}
+	// 2. Collect strings, vlen data, and dimension references, and write the global heap
+	hw.heap = &h5GlobalHeap{
+		strings: make(map[string]heapRef),
+		dims:    make(map[string]heapRef),
+		dimPos:  make(map[string]int),
+	}
 	hw.collectStrings(hw.root)
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
 	hw.collectDimReferences(hw.root)
-	if len(hw.heap.objects) > 0 {
-		hw.writeGlobalHeap()
+	hw.closeHeapCollection()
+
+	// 3. Write dimension scale variable data and OHs, so we know their addresses for
+	//    DIMENSION_LIST references, and complete the references.
+	hw.writeDimScaleContents(hw.root)
+	for name, pos := range hw.heap.dimPos {
+		binary.LittleEndian.PutUint64(hw.buf.Bytes()[pos:], hw.dimAddrs[name])
 	}
 
 	// 4. Write data variables and subgroups
@@ -276,43 +291,36 @@ func (hw *HDF5Writer) writeDimScaleContents(g *h5Group) {
 		hw.writeVarObjectHeaderV2(v, dataAddr, dataSize)
 		hw.dimAddrs[name] = v.addr
 	}
-
-	// Recurse into subgroups
-	for _, sub := range g.groups {
-		hw.writeDimScaleContents(sub)
-	}
 }
 
 // collectDimReferences adds global heap entries for dimension references
 // needed by DIMENSION_LIST attributes.
 func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedKeys(g.vars) {
+		v := g.vars[name]
 		if v.isDimScale {
 			continue
 		}
 		for _, dname := range v.dimensions {
-			if dname == "" {
-				continue
-			}
-			if _, ok := hw.heap.indices["__dimref:"+dname]; ok {
-				continue
-			}
-			addr, ok := hw.dimAddrs[dname]
-			if !ok {
+			if _, ok := hw.heap.dims[dname]; ok {
 				continue
 			}
 			// Store the 8-byte object reference in the global heap
-			ref := make([]byte, 8)
-			binary.LittleEndian.PutUint64(ref, addr)
-			hw.heap.objects = append(hw.heap.objects, ref)
-			hw.heap.indices["__dimref:"+dname] = uint32(len(hw.heap.objects))
+			ref := hw.addToHeap(make([]byte, 8))
+			hw.heap.dims[dname] = ref
+			hw.heap.dimPos[dname] = hw.buf.Len() - 8
 		}
 	}
-	for _, sub := range g.groups {
-		hw.collectDimReferences(sub)
+	for _, name := range sortedKeys(g.groups) {
+		hw.collectDimReferences(g.groups[name])
 	}
 }
 
+// sortedKeys returns the keys of the map in order, to get the same file every time.
+func sortedKeys[V any](m map[string]V) []string {
+	return slices.Sorted(maps.Keys(m))
+}
+
 func (hw *HDF5Writer) writeGroupContents(g *h5Group) {
 	// Write children's data and object headers first
 	// (Dimension scale variables were already written in writeDimScaleContents)
@@ -382,12 +390,7 @@ func (hw *HDF5Writer) writeGroupObjectHeaderV2(g *h5Group) {
 	if g.attributes != nil {
 		for _, k := range g.attributes.Keys() {
 			val, _ := g.attributes.Get(k)
-			if indices, ok := g.attrVlenIndices[k]; ok {
-				hw.vlenHeapIndices = indices
-				hw.vlenPos = 0
-			} else {
-				hw.vlenHeapIndices = nil
-			}
+			hw.vlenRefs = g.attrVlenRefs[k]
 			messages = append(messages, hw.buildAttributeMessage(k, val))
 		}
 	}
@@ -427,12 +430,7 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 	if v.attributes != nil {
 		for _, k := range v.attributes.Keys() {
 			val, _ := v.attributes.Get(k)
-			if indices, ok := v.attrVlenIndices[k]; ok {
-				hw.vlenHeapIndices = indices
-				hw.vlenPos = 0
-			} else {
-				hw.vlenHeapIndices = nil
-			}
+			hw.vlenRefs = v.attrVlenRefs[k]
 			messages = append(messages, hw.buildAttributeMessage(k, val))
 		}
 	}
@@ -533,8 +531,7 @@ func (hw *HDF5Writer) writeDataVar(v *h5Var) uint64 {
 		}
 	}
 	// Set up vlen state for this variable
-	hw.vlenHeapIndices = v.vlenHeapIndices
-	hw.vlenPos = 0
+	hw.vlenRefs = v.vlenRefs
 
 	nDims := len(v.dimensions)
 	start := hw.buf.Len()
@@ -563,11 +560,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		// When dimRemaining == 0, this slice is vlen data: write descriptor
 		if dimRemaining <= 0 {
-			idx := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(hw.buf, uint32(rv.Len()))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
-			hw.vlenPos++
+			hw.writeVlenDescriptor(hw.buf, rv.Len())
 			return
 		}
 		for i := range rv.Len() {
@@ -585,11 +578,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 			}
 		} else {
 			// VLen string
-			str := rv.String()
-			idx := hw.heap.indices[str]
-			util.MustWriteLE(hw.buf, uint32(len(str)))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			hw.writeStringDescriptor(hw.buf, rv.String())
 		}
 		return
 	}
@@ -605,6 +594,23 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 	}
 }
 
+// writeStringDescriptor writes where a string is in the global heap.
+func (hw *HDF5Writer) writeStringDescriptor(buf *bytes.Buffer, str string) {
+	ref := hw.heap.strings[str]
+	util.MustWriteLE(buf, uint32(len(str)))
+	util.MustWriteLE(buf, ref.addr)
+	util.MustWriteLE(buf, ref.index)
+}
+
+// writeVlenDescriptor writes where the next vlen element is in the global heap.
+func (hw *HDF5Writer) writeVlenDescriptor(buf *bytes.Buffer, length int) {
+	ref := hw.vlenRefs[0]
+	hw.vlenRefs = hw.vlenRefs[1:]
+	util.MustWriteLE(buf, uint32(length))
+	util.MustWriteLE(buf, ref.addr)
+	util.MustWriteLE(buf, ref.index)
+}
+
 func (hw *HDF5Writer) shouldUseVLen(rv reflect.Value) bool {
 	t := rv.Type()
 	for t.Kind() == reflect.Slice || t.Kind() == reflect.Array || t.Kind() == reflect.Pointer {
@@ -622,7 +628,8 @@ func (hw *HDF5Writer) shouldUseVLen(rv reflect.Value) bool {
 }
 
 func (hw *HDF5Writer) collectStrings(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedKeys(g.vars) {
+		v := g.vars[name]
 		hw.collectStringsRecursive(reflect.ValueOf(v.val))
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
@@ -637,8 +644,8 @@ func (hw *HDF5Writer) collectStrings(g *h5Group) {
 			hw.collectStringsRecursive(reflect.ValueOf(val))
 		}
 	}
-	for _, sub := range g.groups {
-		hw.collectStrings(sub)
+	for _, name := range sortedKeys(g.groups) {
+		hw.collectStrings(g.groups[name])
 	}
 }
 
@@ -704,174 +711,84 @@ func (hw *HDF5Writer) collectStringsActual(rv reflect.Value) {
 }
 
 func (hw *HDF5Writer) addStringToHeap(s string) {
-	if _, ok := hw.heap.indices[s]; !ok {
-		hw.heap.objects = append(hw.heap.objects, []byte(s))
-		hw.heap.indices[s] = uint32(len(hw.heap.objects))
+	if _, ok := hw.heap.strings[s]; !ok {
+		hw.heap.strings[s] = hw.addToHeap([]byte(s))
 	}
 }
 
 // collectVlenData walks all variables and serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectVlenData(g *h5Group) {
-	for _, v := range g.vars {
-		nDims := len(v.dimensions)
-		rv := reflect.ValueOf(v.val)
-		for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-			rv = rv.Elem()
-		}
-		// Check if this variable has vlen data (more nesting than declared dims)
-		if hw.hasVlenData(rv, nDims) {
-			hw.collectVlenElements(rv, nDims, v)
-		}
-	}
-	for _, sub := range g.groups {
-		hw.collectVlenData(sub)
-	}
-}
-
-// hasVlenData checks if a value has more nesting levels than nDims,
-// meaning it contains vlen data.
-func (hw *HDF5Writer) hasVlenData(rv reflect.Value, nDims int) bool {
-	if e, ok := rv.Interface().(enumerated); ok {
-		return hw.hasVlenData(reflect.ValueOf(e.values), nDims)
-	}
-	for range nDims {
-		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
-			return false
-		}
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return false
-		}
-		if rv.Len() == 0 {
-			// Check type: if element type is still a slice, it's vlen
-			elemType := rv.Type().Elem()
-			return elemType.Kind() == reflect.Slice &&
-				elemType != reflect.TypeOf(compound{}) &&
-				elemType != reflect.TypeOf(opaque{})
-		}
-		rv = rv.Index(0)
-	}
-	// After consuming nDims, check if there's still a slice (= vlen)
-	if rv.Kind() == reflect.Slice && rv.Type() != reflect.TypeOf(compound{}) && rv.Type() != reflect.TypeOf(opaque{}) {
-		return true
-	}
-	// Also check within compound fields
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				return true
-			}
-		}
-	}
-	return false
-}
-
-// collectVlenElements walks through the array dimensions and serializes
-// each vlen element into the global heap.
-func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5Var) {
-	if e, ok := rv.Interface().(enumerated); ok {
-		hw.collectVlenElements(reflect.ValueOf(e.values), dimsLeft, v)
-		return
-	}
-	if dimsLeft > 0 && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
-		for i := range rv.Len() {
-			hw.collectVlenElements(rv.Index(i), dimsLeft-1, v)
-		}
-		return
+	for _, name := range sortedKeys(g.vars) {
+		v := g.vars[name]
+		hw.collectVlenFromValue(reflect.ValueOf(v.val), len(v.dimensions), &v.vlenRefs)
 	}
-	// At the vlen level: serialize this element's data
-	if rv.Kind() == reflect.Slice {
-		hw.serializeVlenElement(rv, v)
-		return
-	}
-	// Check compound fields for vlen
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				hw.serializeVlenElement(frv, v)
-			}
-		}
+	for _, name := range sortedKeys(g.groups) {
+		hw.collectVlenData(g.groups[name])
 	}
 }
 
 // collectAttrVlenData walks all attributes (on variables and groups) and
 // serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
-	for _, v := range g.vars {
-		if v.attributes != nil {
-			for _, k := range v.attributes.Keys() {
-				val, _ := v.attributes.Get(k)
-				var indices []uint32
-				hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
-				if len(indices) > 0 {
-					if v.attrVlenIndices == nil {
-						v.attrVlenIndices = make(map[string][]uint32)
-					}
-					v.attrVlenIndices[k] = indices
-				}
-			}
-		}
-	}
-	if g.attributes != nil {
-		for _, k := range g.attributes.Keys() {
-			val, _ := g.attributes.Get(k)
-			var indices []uint32
-			hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
-			if len(indices) > 0 {
-				if g.attrVlenIndices == nil {
-					g.attrVlenIndices = make(map[string][]uint32)
-				}
-				g.attrVlenIndices[k] = indices
-			}
-		}
+	for _, name := range sortedKeys(g.vars) {
+		v := g.vars[name]
+		v.attrVlenRefs = hw.collectVlenFromAttributes(v.attributes)
 	}
-	for _, sub := range g.groups {
-		hw.collectAttrVlenData(sub)
+	g.attrVlenRefs = hw.collectVlenFromAttributes(g.attributes)
+	for _, name := range sortedKeys(g.groups) {
+		hw.collectAttrVlenData(g.groups[name])
 	}
 }
 
-// collectVlenFromValue recursively walks a value and serializes any vlen
-// elements (varying-length slices) to the global heap.
-func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32) {
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
+func (hw *HDF5Writer) collectVlenFromAttributes(attrs api.AttributeMap) map[string][]heapRef {
+	if attrs == nil {
+		return nil
 	}
+	attrRefs := make(map[string][]heapRef)
+	for _, k := range attrs.Keys() {
+		val, _ := attrs.Get(k)
+		_, nDims := hw.getAttributeDimensions(val)
+		var refs []heapRef
+		hw.collectVlenFromValue(reflect.ValueOf(val), nDims, &refs)
+		attrRefs[k] = refs
+	}
+	return attrRefs
+}
 
+// collectVlenFromValue recursively walks a value and serializes any vlen
+// elements (slices below the dimensions) to the global heap.
+func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, nDims int, refs *[]heapRef) {
 	switch v := rv.Interface().(type) {
 	case compound:
 		for _, f := range v {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice &&
-				frv.Type() != reflect.TypeOf(compound{}) &&
-				frv.Type() != reflect.TypeOf(opaque{}) {
-				// Vlen field in compound: serialize it
-				hw.serializeVlenToHeap(frv, indices)
-			} else {
-				hw.collectVlenFromValue(frv, indices)
-			}
+			hw.collectVlenFromValue(reflect.ValueOf(f.Val), 0, refs)
 		}
 		return
 	case opaque:
 		return
 	case enumerated:
-		hw.collectVlenFromValue(reflect.ValueOf(v.values), indices)
+		hw.collectVlenFromValue(reflect.ValueOf(v.values), nDims, refs)
 		return
 	}
 
-	if isNesting(rv.Type()) {
+	if !isNesting(rv.Type()) {
+		return
+	}
+	if nDims > 0 {
 		for i := range rv.Len() {
-			if isNesting(rv.Index(i).Type()) {
-				hw.serializeVlenToHeap(rv.Index(i), indices)
-				continue
-			}
-			hw.collectVlenFromValue(rv.Index(i), indices)
+			hw.collectVlenFromValue(rv.Index(i), nDims-1, refs)
 		}
+		return
 	}
+	*refs = append(*refs, hw.serializeVlenToHeap(rv))
 }
 
 // serializeVlenToHeap serializes a single vlen slice and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
+func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value) heapRef {
+	// The elements can have vlen fields themselves.
+	var refs []heapRef
+	hw.collectVlenFromValue(rv, 1, &refs)
+	hw.vlenRefs = refs
 	buf := new(bytes.Buffer)
 	for i := range rv.Len() {
 		elem := rv.Index(i)
@@ -882,13 +799,17 @@ func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
 			util.MustWriteRaw(buf, []byte(val))
 		case enumerated:
 			util.MustWrite(buf, hw.byteOrder, val.values)
+		case string:
+			hw.writeStringDescriptor(buf, val)
 		default:
+			if isNesting(elem.Type()) {
+				hw.writeVlenDescriptor(buf, elem.Len())
+				continue
+			}
 			util.MustWrite(buf, hw.byteOrder, val)
 		}
 	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	*indices = append(*indices, uint32(len(hw.heap.objects)))
+	return hw.addToHeap(buf.Bytes())
 }
 
 // getAttributeDimensions returns the array dimensions and effective nDims
@@ -910,56 +831,49 @@ func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 	return dims, nDims
 }
 
-// serializeVlenElement serializes a single vlen element and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
-	buf := new(bytes.Buffer)
-	for i := range rv.Len() {
-		elem := rv.Index(i)
-		switch val := elem.Interface().(type) {
-		case compound:
-			hw.writeCompoundValue(buf, val)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(val))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, val.values)
-		default:
-			util.MustWrite(buf, hw.byteOrder, val)
-		}
-	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	v.vlenHeapIndices = append(v.vlenHeapIndices, uint32(len(hw.heap.objects)))
-}
+// maxHeapIndex is the limit for the index of an object in a global heap collection.
+const maxHeapIndex = 0xffff
 
-func (hw *HDF5Writer) writeGlobalHeap() {
+// addToHeap writes an object to the global heap, and returns where it is.
+func (hw *HDF5Writer) addToHeap(obj []byte) heapRef {
 	gh := hw.heap
-
-	// Align to 8 bytes so that objects within the collection are
-	// properly aligned when using absolute buffer position for padding.
-	for (hw.buf.Len() % 8) != 0 {
-		util.MustWriteByte(hw.buf, 0)
+	if gh.nObject == maxHeapIndex {
+		hw.closeHeapCollection()
 	}
-	gh.addr = uint64(hw.buf.Len())
-
-	// Collection Header
-	util.MustWriteRaw(hw.buf, []byte("GCOL"))
-	util.MustWriteByte(hw.buf, 1)              // version
-	util.MustWriteRaw(hw.buf, []byte{0, 0, 0}) // reserved
-
-	sizeAddr := hw.buf.Len()
-	util.MustWriteLE(hw.buf, uint64(0)) // placeholder for size
-
-	for i, obj := range gh.objects {
-		util.MustWriteLE(hw.buf, uint16(i+1)) // index
-		util.MustWriteLE(hw.buf, uint16(0))   // ref count
-		util.MustWriteLE(hw.buf, uint32(0))   // reserved
-		util.MustWriteLE(hw.buf, uint64(len(obj)))
-		util.MustWriteRaw(hw.buf, obj)
-		// Pad object to 8 bytes
+	if gh.nObject == 0 {
+		// Align to 8 bytes so that objects within the collection are
+		// properly aligned when using absolute buffer position for padding.
 		for (hw.buf.Len() % 8) != 0 {
 			util.MustWriteByte(hw.buf, 0)
 		}
+		gh.addr = uint64(hw.buf.Len())
+
+		// Collection Header
+		util.MustWriteRaw(hw.buf, []byte("GCOL"))
+		util.MustWriteByte(hw.buf, 1)              // version
+		util.MustWriteRaw(hw.buf, []byte{0, 0, 0}) // reserved
+		util.MustWriteLE(hw.buf, uint64(0))        // placeholder for size
+	}
+	gh.nObject++
+	util.MustWriteLE(hw.buf, uint16(gh.nObject)) // index
+	util.MustWriteLE(hw.buf, uint16(0))          // ref count
+	util.MustWriteLE(hw.buf, uint32(0))          // reserved
+	util.MustWriteLE(hw.buf, uint64(len(obj)))
+	util.MustWriteRaw(hw.buf, obj)
+	// Pad object to 8 bytes
+	for (hw.buf.Len() % 8) != 0 {
+		util.MustWriteByte(hw.buf, 0)
 	}
+	return heapRef{gh.addr, gh.nObject}
+}
+
+// closeHeapCollection completes the current collection of the global heap.
+func (hw *HDF5Writer) closeHeapCollection() {
+	gh := hw.heap
+	if gh.nObject == 0 {
+		return
+	}
+	gh.nObject = 0
 
 	// The HDF5 library requires global heap collections to be at least
 	// 4096 bytes (H5HG_MINSIZE). Pad with free space to meet this minimum.
@@ -972,72 +886,18 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	if totalSize < minGCOLSize {
 		totalSize = minGCOLSize
 	}
-	freeEntrySize := totalSize - currentSize // includes the 16-byte header
-	util.MustWriteLE(hw.buf, uint16(0))               // index 0 = free space
-	util.MustWriteLE(hw.buf, uint16(0))               // ref count
-	util.MustWriteLE(hw.buf, uint32(0))               // reserved
-	util.MustWriteLE(hw.buf, uint64(freeEntrySize))   // total free space (incl header)
+	freeEntrySize := totalSize - currentSize        // includes the 16-byte header
+	util.MustWriteLE(hw.buf, uint16(0))             // index 0 = free space
+	util.MustWriteLE(hw.buf, uint16(0))             // ref count
+	util.MustWriteLE(hw.buf, uint32(0))             // reserved
+	util.MustWriteLE(hw.buf, uint64(freeEntrySize)) // total free space (incl header)
 	for range freeEntrySize - 16 {
 		util.MustWriteByte(hw.buf, 0)
 	}
 
 	// Final size
 	finalSize := uint64(hw.buf.Len()) - gh.addr
-	data := hw.buf.Bytes()
-	binary.LittleEndian.PutUint64(data[sizeAddr:], finalSize)
-}
-
-func (hw *HDF5Writer) getDimensions(val any) []uint64 {
-	rv := reflect.ValueOf(val)
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
-	}
-	return getDimensionsRecursive(rv)
-}
-
-func getDimensionsRecursive(rv reflect.Value) []uint64 {
-	// Unwrap enumerated to its inner values
-	if e, ok := rv.Interface().(enumerated); ok {
-		return getDimensionsRecursive(reflect.ValueOf(e.values))
-	}
-	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		// Stop at compound and opaque (named slice types that are leaf values)
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return nil
-		}
-		dims := []uint64{uint64(rv.Len())}
-		if rv.Len() > 0 {
-			inner := getDimensionsRecursive(rv.Index(0))
-			dims = append(dims, inner...)
-		}
-		return dims
-	}
-	return nil
-}
-
-// getDimensionsLimited returns dimensions up to maxDepth levels deep.
-// For vlen variables, the array nesting exceeds the declared dimensions;
-// this function stops after maxDepth levels so the excess nesting can be
-// identified as vlen data.
-func getDimensionsLimited(rv reflect.Value, maxDepth int) []uint64 {
-	if e, ok := rv.Interface().(enumerated); ok {
-		return getDimensionsLimited(reflect.ValueOf(e.values), maxDepth)
-	}
-	if maxDepth <= 0 {
-		return nil
-	}
-	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return nil
-		}
-		dims := []uint64{uint64(rv.Len())}
-		if rv.Len() > 0 {
-			inner := getDimensionsLimited(rv.Index(0), maxDepth-1)
-			dims = append(dims, inner...)
-		}
-		return dims
-	}
-	return nil
+	binary.LittleEndian.PutUint64(hw.buf.Bytes()[gh.addr+8:], finalSize)
 }
 
 // rectangle returns the extents of the first nDims levels of a value, and the
@@ -1080,41 +940,67 @@ func isNesting(t reflect.Type) bool {
 		t != reflect.TypeOf(compound{}) && t != reflect.TypeOf(opaque{})
 }
 
-// leafType returns the type below all the slices, and how many there are of them.
-func leafType(t reflect.Type) (leaf reflect.Type, depth int) {
-	for isNesting(t) {
-		t = t.Elem()
-		depth++
-	}
-	return t, depth
-}
-
-// checkElems checks the elements below the dimensions: they are all of the same kind,
-// and if they are slices (of variable length) they must have storable elements.
+// checkElems checks the elements below the dimensions, which can be slices (of variable
+// length) themselves.
 func checkElems(elems []reflect.Value) error {
 	for _, rv := range elems {
-		if rv.Kind() == reflect.String && strings.Contains(strings.TrimRight(rv.String(), "\x00"), "\x00") {
-			return errNulInString
-		}
-		if !isNesting(rv.Type()) {
-			if !isSupportedType(rv.Interface()) {
-				return fmt.Errorf("%w: %v", ErrUnsupportedType, rv.Type())
+		switch {
+		case rv.Kind() == reflect.String:
+			if strings.Contains(strings.TrimRight(rv.String(), "\x00"), "\x00") {
+				return errNulInString
 			}
-			continue
-		}
-		t := rv.Type().Elem()
-		if isNesting(t) || t.Kind() == reflect.String {
-			return errNotRectangular
+		case isNesting(rv.Type()):
+			_, inner, _ := rectangle(rv, 1)
+			if err := checkElems(inner); err != nil {
+				return err
+			}
+		case !isSupportedType(rv.Interface()):
+			return fmt.Errorf("%w: %v", ErrUnsupportedType, rv.Type())
 		}
-		for i := range rv.Len() {
-			if !isSupportedType(rv.Index(i).Interface()) {
-				return fmt.Errorf("%w: %v", ErrUnsupportedType, t)
+		if c, ok := rv.Interface().(compound); ok {
+			var fields []reflect.Value
+			for _, f := range c {
+				fields = append(fields, reflect.ValueOf(f.Val))
+			}
+			if err := checkElems(fields); err != nil {
+				return err
 			}
 		}
 	}
 	return nil
 }
 
+// isSameType returns whether elements that carry their type with them all have the same
+// one, also below further slices.
+func (hw *HDF5Writer) isSameType(elems []reflect.Value) bool {
+	var first []byte
+	var check func(elems []reflect.Value) bool
+	check = func(elems []reflect.Value) bool {
+		for _, rv := range elems {
+			if isNesting(rv.Type()) {
+				if _, inner, _ := rectangle(rv, 1); !check(inner) {
+					return false
+				}
+				continue
+			}
+			switch rv.Interface().(type) {
+			case compound, opaque, enumerated:
+				dt := hw.buildDatatypeMessage(rv.Interface(), 0)
+				if first == nil {
+					first = dt
+				}
+				if !bytes.Equal(dt, first) {
+					return false
+				}
+			default:
+				return true
+			}
+		}
+		return true
+	}
+	return check(elems)
+}
+
 // checkAttributes checks that all the attributes can be stored.
 func (hw *HDF5Writer) checkAttributes(attrs api.AttributeMap) (err error) {
 	defer thrower.RecoverError(&err)
@@ -1146,6 +1032,9 @@ func (hw *HDF5Writer) checkAttributes(attrs api.AttributeMap) (err error) {
 		if err := checkElems(elems); err != nil {
 			return err
 		}
+		if !hw.isSameType(elems) {
+			return errMixedTypes
+		}
 		dt := hw.buildDatatypeMessage(v, nDims)
 		size := 8 + roundUp8(len(k)+1) + roundUp8(len(dt)) + roundUp8(len(buildDataspaceMessage(dims)))
 		for _, e := range elems {
@@ -1255,6 +1144,9 @@ func (hw *HDF5Writer) checkDimensions(g *h5Group, name string, vr api.Variable)
 	if len(hw.buildDatatypeMessage(vr.Values, nDims)) > maxMessageSize {
 		return nil, errTooBig
 	}
+	if !hw.isSameType(elems) {
+		return nil, errMixedTypes
+	}
 	return shape, nil
 }
 
@@ -1272,15 +1164,6 @@ func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) (err erro
 	if !isSupportedType(vr.Values) {
 		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
 	}
-	if t, depth := leafType(reflect.TypeOf(vr.Values)); t.Kind() == reflect.String {
-		// Strings can't be elements of variable-length types, so the dimensions left
-		// out are unnamed ones.
-		dimensions := slices.Clone(vr.Dimensions)
-		for len(dimensions) < depth {
-			dimensions = append(dimensions, "")
-		}
-		vr.Dimensions = dimensions
-	}
 	shape, err := hw.checkDimensions(g, name, vr)
 	if err != nil {
 		return err
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index f67ac72..ae7db80 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -160,24 +160,42 @@ func writeEnc(buf *bytes.Buffer, val uint32, totalSize uint32) {
 }
 
 // navigateToFirst descends through slice levels to reach the first element
-// at the given depth. Returns a zero value if any slice along the way is empty.
+// at the given depth that has values, or else the zero value.
 func navigateToFirst(rv reflect.Value, depth int) reflect.Value {
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
+	if e, ok := find(rv, depth); ok {
+		return e
 	}
+	t := rv.Type()
 	for range depth {
-		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
+		if !isNesting(t) {
 			break
 		}
-		if rv.Len() == 0 {
-			return reflect.Zero(rv.Type().Elem())
+		t = t.Elem()
+	}
+	return reflect.Zero(t)
+}
+
+// find finds the first element at the given depth that has values.
+func find(rv reflect.Value, depth int) (reflect.Value, bool) {
+	if !isNesting(rv.Type()) {
+		return rv, true
+	}
+	for i := range rv.Len() {
+		if e, ok := find(rv.Index(i), depth-1); ok {
+			if depth <= 0 {
+				return rv, true
+			}
+			return e, true
 		}
-		rv = rv.Index(0)
 	}
-	return rv
+	return rv, false
 }
 
 func buildOpaqueDatatype(size int) []byte {
+	if size == 0 {
+		// The type isn't known when there are no values.
+		thrower.Throw(ErrUnsupportedType)
+	}
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 0x15) // version 1, class 5 (opaque)
 	util.MustWriteByte(buf, 0x00) // tag length = 0
@@ -188,6 +206,10 @@ func buildOpaqueDatatype(size int) []byte {
 }
 
 func (hw *HDF5Writer) buildCompoundDatatype(val compound) []byte {
+	if len(val) == 0 {
+		// The type isn't known when there are no values.
+		thrower.Throw(ErrUnsupportedType)
+	}
 	buf := new(bytes.Buffer)
 
 	// Compute total compound size
@@ -228,6 +250,10 @@ func (hw *HDF5Writer) buildCompoundDatatype(val compound) []byte {
 }
 
 func (hw *HDF5Writer) buildEnumDatatype(e enumerated) []byte {
+	if e.values == nil || len(e.names) == 0 {
+		// The type isn't known when there are no values.
+		thrower.Throw(ErrUnsupportedType)
+	}
 	buf := new(bytes.Buffer)
 
 	// Determine base integer type from the inner values
@@ -295,20 +321,13 @@ func (hw *HDF5Writer) buildVlenSequenceDatatype(rv reflect.Value) []byte {
 	util.MustWriteByte(buf, 0x00)
 	util.MustWriteLE(buf, uint32(16)) // vlen descriptor size
 
-	// Build element datatype: all nesting within the element is array dimensions
-	var elemVal any
-	if rv.Len() > 0 {
-		elemVal = rv.Index(0).Interface()
+	// Build element datatype: nesting within the element is variable-length as well
+	elem := navigateToFirst(rv, 1)
+	if elem.Kind() == reflect.String {
+		util.MustWriteRaw(buf, hw.buildVLenStringDatatype())
 	} else {
-		elemVal = reflect.Zero(rv.Type().Elem()).Interface()
+		util.MustWriteRaw(buf, hw.buildDatatypeMessage(elem.Interface(), 0))
 	}
-	elemRv := reflect.ValueOf(elemVal)
-	for elemRv.Kind() == reflect.Pointer || elemRv.Kind() == reflect.Interface {
-		elemRv = elemRv.Elem()
-	}
-	allDims := getDimensionsRecursive(elemRv)
-	elemDt := hw.buildDatatypeMessage(elemVal, len(allDims))
-	util.MustWriteRaw(buf, elemDt)
 	return buf.Bytes()
 }
 
@@ -371,11 +390,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
 		// When dimRemaining == 0, this slice is vlen: write descriptor
 		if dimRemaining <= 0 {
-			idx := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(buf, uint32(rv.Len()))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
-			hw.vlenPos++
+			hw.writeVlenDescriptor(buf, rv.Len())
 			return
 		}
 		for i := range rv.Len() {
@@ -393,11 +408,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 			}
 		} else {
 			// VLen string
-			str := rv.String()
-			idx := hw.heap.indices[str]
-			util.MustWriteLE(buf, uint32(len(str)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.writeStringDescriptor(buf, rv.String())
 		}
 		return
 	}
@@ -421,10 +432,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			util.MustWrite(buf, hw.byteOrder, v)
 		case string:
 			// Vlen string descriptor
-			idx := hw.heap.indices[v]
-			util.MustWriteLE(buf, uint32(len(v)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.writeStringDescriptor(buf, v)
 		case compound:
 			hw.writeCompoundValue(buf, v)
 		case opaque:
@@ -435,11 +443,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			// Vlen sequence descriptor
 			rv := reflect.ValueOf(v)
 			if rv.Kind() == reflect.Slice {
-				idx := hw.vlenHeapIndices[hw.vlenPos]
-				util.MustWriteLE(buf, uint32(rv.Len()))
-				util.MustWriteLE(buf, hw.heap.addr)
-				util.MustWriteLE(buf, idx)
-				hw.vlenPos++
+				hw.writeVlenDescriptor(buf, rv.Len())
 			} else {
 				thrower.Throw(ErrUnsupportedType)
 			}
@@ -601,10 +605,10 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 
 	// Write VLEN descriptors: for each dimension, one reference
 	for _, dname := range dimNames {
-		heapIdx := hw.heap.indices["__dimref:"+dname]
-		util.MustWriteLE(buf, uint32(1))       // length: 1 reference
-		util.MustWriteLE(buf, hw.heap.addr)    // global heap address
-		util.MustWriteLE(buf, heapIdx)         // global heap object index
+		ref := hw.heap.dims[dname]
+		util.MustWriteLE(buf, uint32(1)) // length: 1 reference
+		util.MustWriteLE(buf, ref.addr)  // global heap address
+		util.MustWriteLE(buf, ref.index) // global heap object index
 	}
 
 	msg := h5Message{mType: 12, data: buf.Bytes()}
-- 
2.43.0


From 89a467403706f76c8b198850b9cb7bcaf48bd369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 11/35] fix: hdf5: close the file and report errors in Close,
 accept nil attributes, and write link names longer than 255 bytes

---
 netcdf/hdf5/hdf5writer.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 330be60..c298c22 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -91,11 +91,16 @@ type HDF5Writer struct {
 }
 
 func (hw *HDF5Writer) Close() (err error) {
-	defer thrower.RecoverError(&err)
 	if hw.closed {
 		return nil
 	}
 	hw.closed = true
+	defer func() {
+		if err2 := hw.file.Close(); err == nil {
+			err = err2
+		}
+	}()
+	defer thrower.RecoverError(&err)
 
 	// 0. Add NetCDF4 metadata
 	hw.addNCProperties()
@@ -142,23 +147,22 @@ func (hw *HDF5Writer) Close() (err error) {
 	binary.LittleEndian.PutUint32(data[44:], sbChecksum)
 
 	_, err = hw.file.Write(data)
-	if err != nil {
-		return err
-	}
-	err = hw.file.Close()
 	return err
 }
 
 // addNCProperties adds the _NCProperties hidden attribute to the root group.
 func (hw *HDF5Writer) addNCProperties() {
 	const ncpValue = "version=2,github.com/batchatco/go-native-netcdf=1.0"
-	keys := hw.root.attributes.Keys()
-	keys = append(keys, ncpKey)
+	keys := []string{}
 	vals := make(map[string]any)
-	for _, k := range hw.root.attributes.Keys() {
-		v, _ := hw.root.attributes.Get(k)
-		vals[k] = v
+	if hw.root.attributes != nil {
+		keys = slices.Clone(hw.root.attributes.Keys())
+		for _, k := range keys {
+			v, _ := hw.root.attributes.Get(k)
+			vals[k] = v
+		}
 	}
+	keys = append(keys, ncpKey)
 	vals[ncpKey] = ncpValue
 	hw.root.attributes, _ = util.NewOrderedMap(keys, vals)
 }
@@ -458,8 +462,13 @@ func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 func (hw *HDF5Writer) buildLinkMessage(name string, addr uint64) h5Message {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 1) // version
-	util.MustWriteByte(buf, 0) // flags
-	util.MustWriteByte(buf, byte(len(name)))
+	if len(name) <= 0xff {
+		util.MustWriteByte(buf, 0) // flags: 1-byte length of name
+		util.MustWriteByte(buf, byte(len(name)))
+	} else {
+		util.MustWriteByte(buf, 1) // flags: 2-byte length of name
+		util.MustWriteLE(buf, uint16(len(name)))
+	}
 	util.MustWriteRaw(buf, []byte(name))
 	util.MustWriteLE(buf, addr)
 
-- 
2.43.0


From 78820823ff606cc9654cfce2f9b80f9f5fec3c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 12/35] fix: hdf5: slices of chunked data, filters with odd
 sizes, reads that leave no trace, sizes checked before use

---
 netcdf/hdf5/hdf5.go    | 487 ++++++++++++++++++++++++-----------------
 netcdf/hdf5/readers.go | 163 ++++++++------
 netcdf/hdf5/segment.go |   2 +-
 3 files changed, 375 insertions(+), 277 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 69bcdca..40bc2cb 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2,6 +2,7 @@
 package hdf5
 
 import (
+	"bytes"
 	"compress/zlib"
 	"encoding/binary"
 	"errors"
@@ -180,9 +181,6 @@ type attribute struct {
 	isSlice       bool
 	firstDim      int64 // first dimension if getting slice (fake objects only)
 	lastDim       int64 // last dimension if getting slice (fake objects only)
-	isSliceMD     bool
-	firstDims     []int64 // for MD slicing
-	lastDims      []int64 // for MD slicing
 	endian        binary.ByteOrder
 	dtversion     uint8
 	creationOrder uint64
@@ -283,11 +281,82 @@ func SetLogLevel(level int) int {
 	return int(old)
 }
 
+// How much memory may be spent on a value beyond what its size in the file accounts for
+// (fill values, slice headers, and so on). Bigger ones have to be read in smaller slices.
+const maxUnbacked = 64 << 20
+
+// memoryCost estimates the memory needed for one value of the type.
+func memoryCost(attr *attribute) uint64 {
+	cost := uint64(attr.length)
+	switch attr.class {
+	case typeFixedPoint, typeFloatingPoint, typeReference:
+	case typeCompound:
+		for _, c := range attr.children {
+			cost += 64 + memoryCost(c)
+		}
+	default:
+		cost += 64
+		for _, c := range attr.children {
+			cost += memoryCost(c)
+		}
+	}
+	return cost
+}
+
+// checkMemory makes sure the memory needed for an array is in proportion to the size of
+// the file, so that a corrupted size doesn't use up all memory. Compressed data can be
+// a thousand times as large as it is in the file.
+func (h5 *HDF5) checkMemory(dimensions []uint64, attr *attribute) {
+	limit := uint64(h5.memoryLimit())
+	const header = 24 // for a slice
+	total := memoryCost(attr)
+	slices := uint64(1)
+	empty := false
+	for i, d := range dimensions {
+		if i > 0 && !empty {
+			assertError(slices <= limit/header, ErrCorrupted, "too many slices")
+		}
+		if d == 0 {
+			empty = true
+			continue
+		}
+		assertError(empty || total <= limit/d, ErrCorrupted, "too much data missing")
+		if !empty {
+			total *= d
+			slices *= d
+		}
+	}
+}
+
+func (h5 *HDF5) memoryLimit() int64 {
+	return maxUnbacked + 1100*h5.fileSize
+}
+
+// valueHeap reads the global heap for a value, and limits how much of it there is in the
+// value, because any number of elements can be the same object.
+type valueHeap struct {
+	h5   *HDF5
+	left int64
+}
+
+func (h5 *HDF5) newValueHeap() *valueHeap {
+	return &valueHeap{h5, h5.memoryLimit()}
+}
+
+func (vh *valueHeap) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uint64) {
+	bf, size := vh.h5.readGlobalHeap(heapAddress, index)
+	vh.left -= int64(size)
+	assertError(vh.left >= 0, ErrCorrupted, "too much data in the global heap")
+	return bf, size
+}
+
 func (h5 *HDF5) newSeek(addr uint64, size int64) remReader {
 	logger.Infof("Seek to 0x%x", addr)
-	assert(int64(addr)+size <= h5.fileSize,
-		fmt.Sprintf("bad seek addr=0x%x size=%d addr+size=0x%x fileSize=0x%x",
-			addr, size, int64(addr)+size, h5.fileSize))
+	if h5.file == nil {
+		thrower.Throw(os.ErrClosed)
+	}
+	assert(addr <= uint64(h5.fileSize) && size >= 0 && size <= h5.fileSize-int64(addr),
+		fmt.Sprintf("bad seek addr=0x%x size=%d fileSize=0x%x", addr, size, h5.fileSize))
 	if size == 0 {
 		size = h5.fileSize - int64(addr)
 	}
@@ -944,15 +1013,20 @@ func calculateFlatOffsetFromKeys(offsets []uint64, dimensions []uint64, dtSize u
 	return dso
 }
 
+// readBTreeNode returns the chunks in the tree which may have data in the given range
+// of offsets in the whole array.
 func (h5 *HDF5) readBTreeNode(parent *object, bta uint64, dtSize uint64,
-	numberOfElements uint64, dimensionality uint8, firstOffset, lastOffset uint64) {
-	h5.readBTreeNodeAny(parent, bta, true /*isTop*/, dtSize, numberOfElements,
+	numberOfElements uint64, dimensionality uint8, firstOffset, lastOffset uint64) []dataBlock {
+	seen := make(map[uint64]bool)
+	return h5.readBTreeNodeAny(parent, nil, seen, bta, true /*isTop*/, dtSize, numberOfElements,
 		dimensionality, firstOffset, lastOffset)
 }
 
-func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
-	dtSize uint64, numberOfElements uint64, dimensionality uint8,
-	firstOffset, lastOffset uint64) {
+func (h5 *HDF5) readBTreeNodeAny(parent *object, blocks []dataBlock, seen map[uint64]bool,
+	bta uint64, isTop bool, dtSize uint64, numberOfElements uint64, dimensionality uint8,
+	firstOffset, lastOffset uint64) []dataBlock {
+	assertError(!seen[bta], ErrCorrupted, "loop in B-tree")
+	seen[bta] = true
 	bf := h5.newSeek(bta, 24) // adjust later
 	checkMagic(bf, 4, "TREE")
 	nodeType := read8(bf)
@@ -964,10 +1038,7 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 	if leftAddress != invalidAddress || rightAddress != invalidAddress {
 		assert(!isTop, "Siblings unexpected")
 	}
-	dimDataSize := 0
-	if dimensionality > 0 {
-		dimDataSize = 8 * int(dimensionality-1)
-	}
+	dimDataSize := 8 * int(dimensionality-1)
 
 	type btreeEntry struct {
 		sizeChunk  uint32
@@ -977,11 +1048,11 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 		flatOffset uint64
 	}
 
-	entries := make([]btreeEntry, entriesUsed+1)
 	bf = h5.newSeek(bta+uint64(bf.Count()),
 		int64((int(entriesUsed)*(24+dimDataSize))+16+dimDataSize))
+	entries := make([]btreeEntry, int(entriesUsed)+1)
 
-	for i := uint16(0); i <= entriesUsed; i++ {
+	for i := range entries {
 		entries[i].sizeChunk = read32(bf)
 		entries[i].filterMask = read32(bf)
 		entries[i].offsets = make([]uint64, dimensionality-1)
@@ -989,16 +1060,14 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 			entries[i].offsets[d] = read64(bf)
 		}
 		read64(bf) // last offset must be zero
-		if i < entriesUsed {
+		if i < int(entriesUsed) {
 			entries[i].addr = read64(bf)
 		}
-		if parent.objAttr.dimensions != nil {
-			entries[i].flatOffset = calculateFlatOffsetFromKeys(entries[i].offsets,
-				parent.objAttr.dimensions, dtSize)
-		}
+		entries[i].flatOffset = calculateFlatOffsetFromKeys(entries[i].offsets,
+			parent.objAttr.dimensions, dtSize)
 	}
 
-	for i := uint16(0); i < entriesUsed; i++ {
+	for i := range int(entriesUsed) {
 		low := entries[i].flatOffset
 		high := entries[i+1].flatOffset
 		if nodeLevel == 0 {
@@ -1012,16 +1081,17 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 		}
 
 		if nodeLevel > 0 {
-			h5.readBTreeNodeAny(parent, entries[i].addr, false /*not top*/, dtSize,
-				numberOfElements, dimensionality, firstOffset, lastOffset)
+			blocks = h5.readBTreeNodeAny(parent, blocks, seen, entries[i].addr, false, /*not top*/
+				dtSize, numberOfElements, dimensionality, firstOffset, lastOffset)
 			continue
 		}
 
 		pending := dataBlock{offset: entries[i].addr, length: uint64(entries[i].sizeChunk), filterMask: entries[i].filterMask}
 		pending.dsLength = numberOfElements * dtSize
 		pending.offsets = entries[i].offsets
-		parent.dataBlocks = append(parent.dataBlocks, pending)
+		blocks = append(blocks, pending)
 	}
+	return blocks
 }
 
 func log2(v uint64) int {
@@ -1566,6 +1636,7 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		ret[i] = sz
 		count *= int64(sz)
 	}
+	checkSize(ret, 1)
 	if hasFlag8(flags, 0) {
 		for i := range int(d) {
 			sz := read64(bf)
@@ -1706,7 +1777,7 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 				numberOfElements)
 			if address != invalidAddress {
 				parent.btreeAddr = address
-				parent.chunkSize = uint64(size)
+				parent.chunkSize = uint64(size) // of an element
 				parent.numberOfElements = numberOfElements
 				parent.dimensionality = dimensionality
 			} else {
@@ -2164,9 +2235,44 @@ func (h5 *HDF5) readDataObjectHeader(obj *object, addr uint64) {
 	// V2 object headers begin with the "OHDR" signature; V1 headers have none.
 	if h5.isMagic("OHDR", addr) {
 		h5.readDataObjectHeaderV2(obj, addr)
+	} else {
+		h5.readDataObjectHeaderV1(obj, addr)
+	}
+	checkLayout(obj)
+}
+
+// checkLayout checks the dimensions and the layout of a variable against each other.
+func checkLayout(obj *object) {
+	attr := obj.objAttr
+	if attr.dimensions == nil {
 		return
 	}
-	h5.readDataObjectHeaderV1(obj, addr)
+	checkSize(attr.dimensions, attr.length)
+	if len(attr.layout) == 0 {
+		return
+	}
+	assertError(len(attr.layout) == len(attr.dimensions), ErrDimensionality,
+		"chunks and data don't have the same dimensionality")
+	assertError(obj.btreeAddr == 0 || obj.chunkSize == uint64(attr.length), ErrCorrupted,
+		"chunks and data don't have the same type")
+	chunkSize := uint64(attr.length)
+	for _, v := range attr.layout {
+		assertError(v > 0 && chunkSize <= math.MaxUint32/v, ErrCorrupted, "invalid chunk size")
+		chunkSize *= v
+	}
+}
+
+// checkSize makes sure that the size of an array can be calculated without overflowing.
+func checkSize(dimensions []uint64, length uint32) {
+	size := uint64(length)
+	for _, v := range dimensions {
+		assertError(v <= math.MaxInt64, ErrCorrupted, "dimension is too big")
+		// the size of a row is needed even if there are no rows
+		if v > 0 {
+			assertError(size <= math.MaxInt64/v, ErrCorrupted, "array is too big")
+			size *= v
+		}
+	}
 }
 
 func (h5 *HDF5) readDataObjectHeaderV2(obj *object, addr uint64) {
@@ -2453,72 +2559,62 @@ func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
 	return reflect.MakeSlice(sliceType, int(dimLengths[0]), int(dimLengths[0]))
 }
 
-func readAll(bf io.Reader, b []byte) (uint64, error) {
-	tot := uint64(0)
-	for {
-		n, err := bf.Read(b)
-		if n == 0 {
-			break
-		}
-		tot += uint64(n)
-		b = b[n:]
-		if err == io.EOF {
-			return tot, err
-		}
-		if err != nil {
-			logger.Error("Some other error", err)
-			return tot, err
-		}
-	}
-	return tot, nil
-}
-
+// newRecordReader returns a reader of the rows wanted, in the order they're stored, which
+// is chunk by chunk if there's a layout. It returns nil if none of them have been written.
 func (h5 *HDF5) newRecordReader(obj *object) remReader {
-	nBlocks := len(obj.dataBlocks)
-	size := uint64(calcAttrSize(obj.objAttr))
-	if size == 0 {
-		return newResetReaderFromBytes([]byte{})
-	}
-	logger.Info("size=", size, "dtlength=", obj.objAttr.length, "dims=", obj.objAttr.dimensions)
+	attr := obj.objAttr
+	dataSize := calcDataSize(attr) * uint64(attr.length)
+	logger.Info("size=", dataSize, "dtlength=", attr.length, "dims=", attr.dimensions)
 	firstOffset := uint64(0)
-	lastOffset := uint64(size)
+	lastOffset := dataSize
+	if attr.isSlice && len(attr.dimensions) > 0 {
+		rowSize := dataSize / attr.dimensions[0]
+		firstOffset = uint64(attr.firstDim) * rowSize
+		lastOffset = uint64(attr.lastDim) * rowSize
+		if needsLayoutReader(attr) {
+			// Need whole chunks
+			chunkRows := attr.layout[0]
+			firstOffset = uint64(attr.firstDim) / chunkRows * chunkRows * rowSize
+		}
+	}
+	blocks := obj.dataBlocks
+	if len(blocks) == 0 && obj.btreeAddr != 0 {
+		blocks = h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
+	}
+	if needsLayoutReader(attr) {
+		// The range in whole chunks
+		firstOffset = 0
+		lastOffset = calcAttrSize(attr)
+		if attr.isSlice {
+			stripeSize := lastOffset / chunksAlong(attr, 0)
+			firstOffset = uint64(attr.firstDim) / attr.layout[0] * stripeSize
+			lastOffset = (uint64(attr.lastDim) + attr.layout[0] - 1) / attr.layout[0] * stripeSize
+		}
+	}
+	size := lastOffset - firstOffset
 	segments := newSegments()
-	if obj.objAttr.isSlice && !needsLayoutReader(obj.objAttr) {
-		if len(obj.objAttr.dimensions) > 0 && obj.objAttr.dimensions[0] > 0 {
-			dimSize := size / obj.objAttr.dimensions[0]
-			firstOffset = uint64(obj.objAttr.firstDim) * dimSize
-			lastOffset = uint64(obj.objAttr.lastDim) * dimSize
-			size = lastOffset - firstOffset
-		}
-	}
-	if nBlocks == 0 && obj.btreeAddr != 0 {
-		h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
-		nBlocks = len(obj.dataBlocks)
-	}
-	if nBlocks == 0 {
-		logger.Info("No blocks, filling only", size, obj.objAttr.dimensions)
-		return makeFillValueReader(obj, nil, int64(size))
-	}
 	offset := uint64(0)
-	for _, val := range obj.dataBlocks {
+	for _, val := range blocks {
 		dsLength := val.dsLength
 		skipBegin := uint64(0)
 		skipEnd := uint64(0)
-		valOffset := val.offset
 
-		if len(obj.objAttr.layout) > 0 {
-			offset = calculateFlatOffset(val.offsets, obj.objAttr.dimensions, obj.objAttr.layout, uint64(obj.objAttr.length))
+		if len(attr.layout) > 0 {
+			var inside bool
+			offset, inside = calculateFlatOffset(val.offsets, attr.dimensions, attr.layout, uint64(attr.length))
+			if !inside {
+				continue
+			}
 		}
 
-		if offset+dsLength <= firstOffset {
-			if len(obj.objAttr.layout) == 0 {
+		if offset+dsLength <= firstOffset || offset >= lastOffset {
+			if len(attr.layout) == 0 {
 				offset += dsLength
 			}
 			continue
 		}
-		if offset >= lastOffset {
-			break
-		}
+		// Deflate can't make anything smaller than a 1032nd
+		assertError(val.rawData != nil || dsLength/1032 <= val.length, ErrCorrupted, "chunk is too small")
 		if firstOffset >= offset && firstOffset < offset+dsLength {
 			skipBegin = (firstOffset - offset)
 		}
@@ -2526,81 +2622,34 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			skipEnd = offset + dsLength - lastOffset
 		}
 
+		thisSize := int64(dsLength - (skipBegin + skipEnd))
 		var bf io.Reader
-		canSeek := false
-		if val.rawData != nil {
-			thisSize := int64(dsLength - skipEnd)
-			bf = newResetReaderFromBytes(val.rawData[:thisSize])
-		} else {
-			logger.Infof("offset=0x%x length=%d offset+length=0x%x filesize=0x%x",
-				valOffset, val.length,
-				valOffset+val.length, h5.fileSize)
-			bf = h5.newSeek(valOffset, int64(val.length))
-			canSeek = true
-		}
-
-		// Filters must be applied in the reverse order of their definition.
-		// We pre-calculate the expected data size at each stage of the pipeline
-		// to ensure filters like Fletcher32 and Shuffle receive the correct input/output sizes.
-		targetSize := make([]uint64, len(obj.filters))
-		curr := dsLength
-		for j := range obj.filters {
-			targetSize[j] = curr
-			if (1<<uint(j))&val.filterMask == 0 {
-				if obj.filters[j].kind == filterFletcher32 {
-					curr += 4
-				}
-			}
-		}
-
-		inputSize := val.length
-		for j := len(obj.filters) - 1; j >= 0; j-- {
-			f := obj.filters[j]
-			if (1<<uint(j))&val.filterMask != 0 {
-				continue
-			}
-			switch f.kind {
-			case filterFletcher32:
-				bf = fletcher32Reader(bf, inputSize)
-				inputSize -= 4
-			case filterDeflate:
-				zbf, err := zlib.NewReader(bf)
-				if err != nil {
-					failError(ErrUnknownCompression, fmt.Sprintf("unknown compression: %v", err))
-				}
-				// If there are more filters, we don't know the size yet.
-				// But shuffle usually needs it.
-				bf = newResetReader(zbf, int64(targetSize[j]))
-				inputSize = targetSize[j]
-				canSeek = false
-			case filterShuffle:
-				shuffleParam := uint32(0)
-				if len(f.cdv) > 0 {
-					shuffleParam = f.cdv[0]
-				}
-				bf = newUnshuffleReader(bf, targetSize[j], shuffleParam)
-				inputSize = targetSize[j]
-				canSeek = false
-			}
-		}
-		if skipBegin > 0 {
-			if canSeek {
-				thisSize := int64(dsLength - (skipBegin + skipEnd))
-				bf = h5.newSeek(valOffset+skipBegin, thisSize)
-			} else {
+		switch {
+		case val.rawData != nil:
+			bf = newResetReaderFromBytes(val.rawData[skipBegin : dsLength-skipEnd])
+		case len(obj.filters) > 0:
+			bf = h5.newFilterReader(obj.filters, val)
+			if skipBegin > 0 {
 				skip(bf, int64(skipBegin))
 			}
+		default:
+			assertError(val.length >= dsLength, ErrCorrupted, "chunk is too small")
+			bf = h5.newSeek(val.offset+skipBegin, thisSize)
 		}
 		thisSeg := &segment{
 			offset: offset + skipBegin,
-			length: dsLength - (skipBegin + skipEnd),
+			length: uint64(thisSize),
 			r:      bf,
 		}
 		segments.append(thisSeg)
-		if len(obj.objAttr.layout) == 0 {
+		if len(attr.layout) == 0 {
 			offset += dsLength
 		}
 	}
+	if segments.Len() == 0 {
+		logger.Info("No data, filling only", size, attr.dimensions)
+		return nil
+	}
 	segments.sort()
 	readers := make([]io.Reader, 0)
 	off := firstOffset
@@ -2614,13 +2663,13 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			readers = append(readers, makeFillValueReader(obj, nil, int64(holeSize)))
 			off = seg.offset
 		}
-		assert(seg.offset <= off, "discontiguous data")
+		assertError(seg.offset == off, ErrCorrupted, "discontiguous data")
 		logger.Infof("Reader at offset 0x%x length %d", seg.offset, seg.length)
 		readers = append(readers, newResetReader(r, int64(seg.length)))
 		off += seg.length
 	}
-	if size > off {
-		extra := size - off
+	if lastOffset > off {
+		extra := lastOffset - off
 		logger.Infof("Fill value reader at end offset 0x%x length %d",
 			off, extra)
 		readers = append(readers, makeFillValueReader(obj, nil, int64(extra)))
@@ -2631,24 +2680,77 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 	return newResetReader(io.MultiReader(readers...), int64(size))
 }
 
-func (h5 *HDF5) newMaybeLayoutRecordReader(obj *object) io.Reader {
+// newFilterReader returns a reader of the data in a chunk that has been through
+// filters. The chunk is not read until it is needed, and then it's read as a whole, so
+// that its checksum is always verified.
+func (h5 *HDF5) newFilterReader(filters []filter, val dataBlock) io.Reader {
+	bf := h5.newSeek(val.offset, int64(val.length)) // verifies the range now
+	return &lazyReader{get: func() []byte {
+		// Filters must be applied in the reverse order of their definition.
+		b := readBytes(bf, val.length)
+		for j := len(filters) - 1; j >= 0; j-- {
+			if (1<<uint(j))&val.filterMask != 0 {
+				continue
+			}
+			switch filters[j].kind {
+			case filterFletcher32:
+				assertError(len(b) >= 4, ErrCorrupted, "chunk is too small")
+				fl := fletcher32Reader(bytes.NewReader(b), uint64(len(b)))
+				b = readBytes(fl, uint64(len(b)-4))
+			case filterDeflate:
+				zbf, err := zlib.NewReader(bytes.NewReader(b))
+				if err != nil {
+					failError(ErrUnknownCompression, fmt.Sprintf("unknown compression: %v", err))
+				}
+				// Something is wrong if it's much bigger than the data wanted (there
+				// can be more to come, such as a checksum).
+				b, err = io.ReadAll(io.LimitReader(zbf, int64(2*val.dsLength+1024)))
+				thrower.ThrowIfError(err)
+			case filterShuffle:
+				shuffleParam := uint32(0)
+				if len(filters[j].cdv) > 0 {
+					shuffleParam = filters[j].cdv[0]
+				}
+				unshuffle(b, shuffleParam)
+			}
+		}
+		assertError(uint64(len(b)) == val.dsLength, ErrCorrupted, "chunk has the wrong size")
+		return b
+	}}
+}
+
+// newMaybeLayoutRecordReader returns a reader of the rows wanted, which are size bytes,
+// in their order in the array.
+func (h5 *HDF5) newMaybeLayoutRecordReader(obj *object, size uint64) remReader {
+	if size == 0 {
+		return newResetReaderFromBytes([]byte{})
+	}
 	r := h5.newRecordReader(obj)
+	if r == nil {
+		return makeFillValueReader(obj, nil, int64(size))
+	}
 	if needsLayoutReader(obj.objAttr) {
-		return newLayoutReader(r, obj)
+		h5.checkMemory(obj.objAttr.layout, obj.objAttr)
+		r = newLayoutReader(r, obj)
 	}
-	return r
+	return newResetReader(r, int64(size))
+}
+
+// chunksAlong returns the number of chunks along the given dimension.
+func chunksAlong(attr *attribute, i int) uint64 {
+	return (attr.dimensions[i] + attr.layout[i] - 1) / attr.layout[i]
 }
 
 func needsLayoutReader(attr *attribute) bool {
-	if len(attr.layout) == 0 {
+	// In one dimension the chunks are in order
+	if len(attr.layout) < 2 {
 		return false
 	}
-	for i := range attr.dimensions {
-		if attr.dimensions[i]%attr.layout[i] != 0 {
-			return true
-		}
+	last := len(attr.layout) - 1
+	if attr.dimensions[last]%attr.layout[last] != 0 {
+		return true
 	}
-	for i := range len(attr.layout) - 1 {
+	for i := range last {
 		if attr.layout[i] != 1 {
 			return true
 		}
@@ -2662,7 +2764,7 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 	if obj.fillValue == nil {
 		objFillValue = obj.fillValueOld
 	}
-	if objFillValue != nil {
+	if len(objFillValue) > 0 {
 		if &objFillValue[0] == &fillValueUndefinedConstant[0] {
 			logger.Info("Using the undefined fill value")
 			undefinedFillValue = true
@@ -2692,37 +2794,15 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 
 func (h5 *HDF5) getData(obj *object) any {
 	attr := obj.objAttr
-	sz := calcAttrSize(obj.objAttr)
-	bf := h5.newMaybeLayoutRecordReader(obj)
-	logger.Info("about to getdataattr rem=", bf.(remReader).Rem(), "size=", sz)
-	if int64(sz) > bf.(remReader).Rem() {
-		length := int64(sz) - bf.(remReader).Rem()
-		logger.Info("Add fill value reader", length)
-		bf = makeFillValueReader(obj, bf, int64(sz))
-	}
-	var bff io.Reader
-	if attr.isSlice {
-		assert(attr.lastDim >= attr.firstDim, "bad slice params")
-		var chunkSize int64
-		switch {
-		case len(attr.dimensions) == 0:
-			chunkSize = 1
-		case attr.dimensions[0] == 0:
-			chunkSize = 0
-		default:
-			chunkSize = int64(sz) / int64(attr.dimensions[0])
-			if needsLayoutReader(attr) {
-				// The above calculation could be wrong due to layout chunks.
-				// The calculation is not simple and is a TODO.
-				logger.Info("var slices with chunked layout not fully implemented")
-			}
-		}
-		sliceSize := chunkSize * (attr.lastDim - attr.firstDim)
-		bff = newResetReader(bf, sliceSize)
-	} else {
-		bff = newResetReader(bf, int64(sz))
+	dimensions := sliceDimensions(attr)
+	h5.checkMemory(dimensions, attr)
+	sz := uint64(attr.length)
+	for _, d := range dimensions {
+		sz *= d
 	}
-	return getDataAttr(h5, h5, bff, *attr)
+	bf := h5.newMaybeLayoutRecordReader(obj, sz)
+	logger.Info("about to getdataattr rem=", bf.Rem(), "size=", sz)
+	return getDataAttr(h5.newValueHeap(), h5, bf, *attr)
 }
 
 func getDataAttr(hr heapReader, c caster, bf io.Reader, attr attribute) any {
@@ -2731,22 +2811,18 @@ func getDataAttr(hr heapReader, c caster, bf io.Reader, attr attribute) any {
 	}
 	logger.Info("getDataAttr, class", typeNames[attr.class],
 		"length", attr.length, "rem", bf.(remReader).Rem(), "dims=", attr.dimensions)
-	dimensions := attr.dimensions
-	if attr.isSlice {
-		nd := make([]uint64, len(dimensions))
-		copy(nd, dimensions)
-		if len(dimensions) > 0 {
-			nd[0] = uint64(attr.lastDim - attr.firstDim)
-		}
-		dimensions = nd
-	} else if attr.isSliceMD {
-		nd := make([]uint64, len(dimensions))
-		for i := range dimensions {
-			nd[i] = uint64(attr.lastDims[i] - attr.firstDims[i])
-		}
-		dimensions = nd
+	return alloc(attr.class, hr, c, bf, &attr, sliceDimensions(&attr))
+}
+
+// sliceDimensions returns the dimensions of what's wanted of the array
+func sliceDimensions(attr *attribute) []uint64 {
+	if !attr.isSlice || len(attr.dimensions) == 0 {
+		return attr.dimensions
 	}
-	return alloc(attr.class, hr, c, bf, &attr, dimensions)
+	nd := make([]uint64, len(attr.dimensions))
+	copy(nd, attr.dimensions)
+	nd[0] = uint64(attr.lastDim - attr.firstDim)
+	return nd
 }
 
 func (h5 *HDF5) cast(attr attribute) reflect.Type {
@@ -3300,10 +3376,12 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			}
 			return data, nil
 		}
-		if end < begin {
+		if begin < 0 || end < begin || end > d || fakeEnd {
 			return nil, errors.New("invalid slice parameters")
 		}
 		fakeObj := *found
+		fakeAttr := *found.objAttr
+		fakeObj.objAttr = &fakeAttr
 		fakeObj.objAttr.isSlice = true
 		fakeObj.objAttr.firstDim = begin
 		fakeObj.objAttr.lastDim = end
@@ -3318,10 +3396,13 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			return nil, ErrDimensionality
 		}
 		for i := range begin {
-			if end[i] < begin[i] {
+			if begin[i] < 0 || end[i] < begin[i] || end[i] > int64(found.objAttr.dimensions[i]) {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
+		if len(begin) == 0 {
+			return getSlice(0, 1)
+		}
 		// Optimize: only read the required range of the first dimension from disk
 		partialData, err := getSlice(begin[0], end[0])
 		if err != nil {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 28f222b..429be83 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -45,12 +45,10 @@ type resetReader struct {
 	bytes []byte
 }
 
-// unshuffleReader implements the shuffle algorithm
-type unshuffleReader struct {
-	r            io.Reader
-	b            []byte
-	size         uint64
-	shuffleParam uint32
+// lazyReader gets what it reads when it is first read
+type lazyReader struct {
+	get func() []byte
+	b   []byte
 }
 
 // Streaming version of a fletcher32 reader
@@ -101,44 +99,38 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 	if err != nil && err != io.EOF {
 		return 0, err
 	}
+	// Sums are modulo 65535, but with 65535 representing zero unless all is zero.
+	fold := func(sum uint32) uint32 {
+		return (sum & 0xffff) + (sum >> 16)
+	}
 	addToSums := func(val uint16) {
-		fl.sum1 = (fl.sum1 + uint32(val)) % 65535
-		fl.sum2 = (fl.sum1 + fl.sum2) % 65535
-	}
-	for i := 0; i < n; i++ {
-		var val uint16
-		switch {
-		case (fl.count+uint64(i))%2 == 1:
-			// Previous read left us with an odd count.
-			// Recover the partial read and compute val.
-			val = (uint16(fl.partial) << 8) | uint16(b[i])
-			addToSums(val)
-		case i == n-1:
-			// Can't complete a read, so save the partial.
-			fl.partial = b[i]
-		default:
-			val = (uint16(b[i]) << 8) | uint16(b[i+1])
-			addToSums(val)
-			i++
+		fl.sum1 = fold(fl.sum1 + uint32(val))
+		fl.sum2 = fold(fl.sum1 + fl.sum2)
+	}
+	for _, c := range b[:n] {
+		if fl.count%2 == 0 {
+			fl.partial = c
+		} else {
+			addToSums(uint16(fl.partial)<<8 | uint16(c))
 		}
+		fl.count++
 	}
-	fl.count += uint64(n)
-	if fl.count == fl.size-4 {
+	if fl.count == fl.size-4 && !fl.readChecksum {
 		if (fl.size-4)%2 == 1 {
 			// Retrieve partial and complete sum as if next byte were zero.
-			val := uint16(fl.partial) << 8
-			addToSums(val)
+			addToSums(uint16(fl.partial) << 8)
 		}
 		calcedSum := (uint32(fl.sum2) << 16) | uint32(fl.sum1)
-		if !fl.readChecksum {
-			util.MustReadLE(fl.r, &fl.checksum)
-			fl.readChecksum = true
-		}
+		util.MustReadLE(fl.r, &fl.checksum)
+		fl.readChecksum = true
 		if calcedSum != fl.checksum {
 			thrower.Throw(ErrFletcherChecksum)
 		}
 	}
-	return n, nil
+	if n == 0 && thisLen == 0 && len(b) > 0 {
+		return 0, io.EOF
+	}
+	return n, err
 }
 
 func (r *resetReader) Rem() int64 {
@@ -229,7 +221,7 @@ func (f *raFile) readNoLock(p []byte) (int, error) {
 		return 0, err
 	}
 	n, err := f.rcFile.file.Read(p[:thisLen])
-	if err != nil {
+	if err != nil && (n == 0 || err != io.EOF) {
 		logger.Error("Read error in Read", err, io.SeekStart)
 		return 0, err
 	}
@@ -249,8 +241,17 @@ func (f *raFile) ReadAt(b []byte, offset int64) (int, error) {
 		return 0, err
 	}
 	f.seekPointer = offset
-	n, retErr := f.readNoLock(b)
+	n := 0
+	var retErr error
+	for n < len(b) && retErr == nil {
+		var thisLen int
+		thisLen, retErr = f.readNoLock(b[n:])
+		n += thisLen
+	}
 	f.seekPointer = save
+	if n == len(b) {
+		retErr = nil
+	}
 	return n, retErr
 }
 
@@ -288,18 +289,39 @@ func (rcf *refCountedFile) dereference() error {
 	return err
 }
 
-func newUnshuffleReader(r io.Reader, size uint64, shuffleParam uint32) remReader {
-	return newResetReader(&unshuffleReader{r, nil, size, shuffleParam}, int64(size))
+func (r *lazyReader) Read(p []byte) (int, error) {
+	if r.get != nil {
+		r.b = r.get()
+		r.get = nil
+	}
+	if len(r.b) == 0 {
+		return 0, io.EOF
+	}
+	n := copy(p, r.b)
+	r.b = r.b[n:]
+	return n, nil
+}
+
+// readBytes reads exactly n bytes, a number which may come from a corrupted file.
+func readBytes(r io.Reader, n uint64) []byte {
+	b, err := io.ReadAll(io.LimitReader(r, int64(n)))
+	thrower.ThrowIfError(err)
+	if uint64(len(b)) != n {
+		thrower.Throw(io.ErrUnexpectedEOF)
+	}
+	return b
 }
 
 func unshuffle(val []byte, n uint32) {
-	if n == 1 {
+	nelems := 0
+	if n > 0 {
+		nelems = len(val) / int(n)
+	}
+	if n == 1 || nelems <= 1 {
 		return // avoids allocation
 	}
-	// shuffle params are never very large in practice, so this isn't wasteful
-	// of memory.
-	tmp := make([]byte, len(val))
-	nelems := len(val) / int(n)
+	// Bytes that don't fill an element are left as they are.
+	tmp := make([]byte, nelems*int(n))
 	for i := range int(n) {
 		for j := range nelems {
 			tmp[j*int(n)+i] = val[i*nelems+j]
@@ -308,32 +330,6 @@ func unshuffle(val []byte, n uint32) {
 	copy(val, tmp)
 }
 
-func (r *unshuffleReader) Read(p []byte) (int, error) {
-	if r.size == 0 {
-		return 0, io.EOF
-	}
-	thisLen := uint64(len(p))
-	if thisLen > r.size {
-		thisLen = r.size
-	}
-	var err error
-	if r.b == nil {
-		r.b = make([]byte, r.size)
-		tot, err := readAll(r.r, r.b)
-		unshuffle(r.b[:tot], r.shuffleParam)
-		if err != nil {
-			assert(err == io.EOF, err.Error())
-		}
-	}
-	copy(p, r.b[:thisLen])
-	r.b = r.b[thisLen:]
-	r.size -= thisLen
-	if r.size == 0 {
-		return int(thisLen), io.EOF
-	}
-	return int(thisLen), err
-}
-
 type layoutReader struct {
 	r           remReader
 	obj         *object
@@ -378,10 +374,16 @@ func calcDataSize(attr *attribute) uint64 {
 	return dataSize
 }
 
-func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLength uint64) uint64 {
+// calculateFlatOffset calculates the offset of a chunk, given its offsets in the array.
+// It returns false if the chunk isn't inside the array at all.
+func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLength uint64) (uint64, bool) {
 	rank := len(dims)
 	flatChunkIndex := uint64(0)
 	for i := range rank {
+		if offsets[i] >= dims[i] {
+			return 0, false
+		}
+		assertError(offsets[i]%layout[i] == 0, ErrCorrupted, "chunk is not where it can be")
 		gi := offsets[i] / layout[i]
 		gridStride := uint64(1)
 		for k := i + 1; k < rank; k++ {
@@ -395,7 +397,7 @@ func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLen
 		chunkSize *= v
 	}
 
-	return flatChunkIndex * chunkSize * dtLength
+	return flatChunkIndex * chunkSize * dtLength, true
 }
 
 func (lr *layoutReader) fillrow() error {
@@ -536,7 +538,22 @@ func (lr *layoutReader) Count() int64 {
 	return int64(lr.count)
 }
 
-func newLayoutReader(r remReader, obj *object) io.Reader {
-	size := calcDataSize(obj.objAttr) * uint64(obj.objAttr.length)
-	return &layoutReader{r, obj, nil, int64(size), 0, 0}
+func newLayoutReader(r remReader, obj *object) remReader {
+	attr := obj.objAttr
+	size := calcDataSize(attr) * uint64(attr.length)
+	lr := &layoutReader{r, obj, nil, int64(size), 0, 0}
+	if attr.isSlice {
+		rowSize := size / attr.dimensions[0]
+		stripes := 1
+		for i := 1; i < len(attr.dimensions)-1; i++ {
+			stripes *= int(chunksAlong(attr, i))
+		}
+		firstChunk := uint64(attr.firstDim) / attr.layout[0]
+		lr.stripeIndex = int(firstChunk) * stripes
+		lr.size = int64((uint64(attr.lastDim) - firstChunk*attr.layout[0]) * rowSize)
+		if attr.lastDim > attr.firstDim {
+			skip(lr, int64((uint64(attr.firstDim)-firstChunk*attr.layout[0])*rowSize))
+		}
+	}
+	return lr
 }
diff --git a/netcdf/hdf5/segment.go b/netcdf/hdf5/segment.go
index 1909fe1..2924f69 100644
--- a/netcdf/hdf5/segment.go
+++ b/netcdf/hdf5/segment.go
@@ -32,7 +32,7 @@ func (s *segments) Swap(i, j int) {
 }
 
 func (s *segments) Less(i, j int) bool {
-	return s.segs[i].offset <= s.segs[j].offset
+	return s.segs[i].offset < s.segs[j].offset
 }
 
 // other methods
-- 
2.43.0


From d0b76b86a735d07bed8dd83d2cebe656b06d13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 13/35] fix: hdf5: attributes in order and read afresh each
 time with their own types, dimension names as NetCDF defines them, character
 arrays of any rank

---
 internal/slicer.go           |   4 +-
 netcdf/hdf5/amap.go          |  26 +-
 netcdf/hdf5/array.go         |  22 +-
 netcdf/hdf5/compound.go      |  24 +-
 netcdf/hdf5/enum.go          |   8 +-
 netcdf/hdf5/fixedPoint.go    |   9 +-
 netcdf/hdf5/floatingPoint.go |   9 +-
 netcdf/hdf5/hdf5.go          | 554 +++++++++++++++++------------------
 netcdf/hdf5/opaque.go        |   5 +-
 netcdf/hdf5/reference.go     |  18 +-
 netcdf/hdf5/string.go        |  70 ++---
 netcdf/hdf5/types.go         |  21 +-
 netcdf/hdf5/vlen.go          |  16 +-
 13 files changed, 355 insertions(+), 431 deletions(-)

diff --git a/internal/slicer.go b/internal/slicer.go
index 05c233b..061cc79 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -106,7 +106,9 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 	}
 	// The last dimension of character data is the string's
 	if v.Kind() == reflect.String {
-		return reflect.ValueOf(v.String()[begin[0]:end[0]])
+		// which can be shorter if its trailing nulls have been dropped
+		n := int64(v.Len())
+		return reflect.ValueOf(v.String()[min(begin[0], n):min(end[0], n)])
 	}
 	// For scalars or base types at the end of recursion
 	return v
diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index b4ec65c..2b1854d 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -1,32 +1,44 @@
 package hdf5
 
 import (
+	"strings"
+
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
 )
 
 // Adds callbacks to the standard OrderedMap so we can print
 // out more complex types than the default (structs, enums, etc.)
 type callback struct {
-	h5 *HDF5
-	om *util.OrderedMap
+	h5       *HDF5
+	attrlist []*attribute
 }
 
 // CDL callback (regular)
 func (c *callback) regCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrType(key)
-	return ret, ret != ""
+	base, nDims, has := c.h5.findAttrType(c.attrlist, key, cdlTypeString)
+	return base + strings.Repeat("(*)", nDims), has
 }
 
 func (c *callback) goCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrGoType(key)
-	return ret, ret != ""
+	base, nDims, has := c.h5.findAttrType(c.attrlist, key, goTypeString)
+	return strings.Repeat("[]", nDims) + base, has
 }
 
+// newTypedAttributeMap returns a map with the types of the global attributes of the file.
 func newTypedAttributeMap(h5 *HDF5, keys []string, values map[string]any) (*util.OrderedMap, error) {
+	var attrlist []*attribute
+	if h5 != nil {
+		attrlist = h5.rootObject.attrlist
+	}
+	return newAttributeMap(h5, attrlist, keys, values)
+}
+
+// newAttributeMap returns a map with the types of the given attributes.
+func newAttributeMap(h5 *HDF5, attrlist []*attribute, keys []string, values map[string]any) (*util.OrderedMap, error) {
 	om, err := util.NewOrderedMap(keys, values)
 	assertError(err == nil, err, "creating ordered map")
 	if h5 != nil {
-		c := callback{h5, om}
+		c := callback{h5, attrlist}
 		om.SetTypeCallbacks(c.regCallback, c.goCallback)
 	}
 	return om, nil
diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index db710d0..e37621d 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -3,6 +3,7 @@ package hdf5
 import (
 	"fmt"
 	"io"
+	"slices"
 	"strings"
 )
 
@@ -51,20 +52,21 @@ func (arrayManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attri
 	arrayAttr := attr.children[0]
 	logger.Info("child dimensions=", arrayAttr.dimensions)
 	logger.Info("childlength=", arrayAttr.length)
-	newDimensions := append(dimensions, arrayAttr.dimensions...)
-	arrayAttr.dimensions = newDimensions
-	logger.Info("new dimensions=", newDimensions)
+	// The type is shared, so it mustn't be changed
+	newAttr := *arrayAttr
+	newAttr.dimensions = slices.Concat(dimensions, arrayAttr.dimensions)
+	logger.Info("new dimensions=", newAttr.dimensions)
 	cbf := bf.(remReader)
-	logger.Info(cbf.Count(), "child length", arrayAttr.length)
-	logger.Info(cbf.Count(), "array", "class", arrayAttr.class)
-	return getDataAttr(hr, c, cbf, *arrayAttr)
+	logger.Info(cbf.Count(), "child length", newAttr.length)
+	logger.Info(cbf.Count(), "array", "class", newAttr.class)
+	return getDataAttr(hr, c, cbf, newAttr)
 }
 
 func (arrayManagerType) defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte {
 	return objFillValue
 }
 
-func (arrayManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
+func (arrayManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
 	logger.Info("Array")
 	dimensionality := read8(bf)
 	logger.Info("dimensionality", dimensionality)
@@ -85,11 +87,7 @@ func (arrayManagerType) parse(hr heapReader, c caster, attr *attribute, bitField
 		}
 	}
 	var arrayAttr attribute
-	printDatatype(hr, c, bf, nil, 0, &arrayAttr)
+	printDatatype(hr, c, bf, &arrayAttr)
 	arrayAttr.dimensions = dimensions
 	attr.children = append(attr.children, &arrayAttr)
-	if df != nil && df.Rem() > 0 {
-		logger.Info("Using an array in an attribute")
-		attr.df = newResetReaderSave(df, df.Rem())
-	}
 }
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 02ac2a4..2119289 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -63,7 +63,7 @@ func (compoundManagerType) defaultFillValue(obj *object, objFillValue []byte, un
 	return objFillValue
 }
 
-func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
+func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
 	logger.Info("* compound")
 	logger.Info("attr.dtversion", attr.dtversion)
 	assert(attr.dtversion >= 1 && attr.dtversion <= maxDTVersion,
@@ -78,10 +78,6 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 	default:
 		padding = 0
 	}
-	rem := int64(0)
-	if df != nil {
-		rem = df.Rem()
-	}
 	for i := range int(nmembers) {
 		name := readNullTerminatedName(bf, padding)
 		logger.Info(i, "compound name=", name)
@@ -128,25 +124,13 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 			compoundAttribute.dimensions = compoundAttribute.dimensions[:dimensionality]
 		}
 
-		logger.Infof("%d compound before: len(prop) = %d len(data) = %d", i, bf.Rem(), rem)
-		printDatatype(hr, c, bf, nil, 0, &compoundAttribute)
-		logger.Infof("%d compound after: len(prop) = %d len(data) = %d", i, bf.Rem(), rem)
+		logger.Infof("%d compound before: len(prop) = %d", i, bf.Rem())
+		printDatatype(hr, c, bf, &compoundAttribute)
+		logger.Infof("%d compound after: len(prop) = %d", i, bf.Rem())
 		logger.Infof("%d compound dtlength", compoundAttribute.length)
 		attr.children = append(attr.children, &compoundAttribute)
 	}
 	logger.Info("Compound length is", attr.length)
-	if rem > 0 {
-		attrSize := calcAttrSize(attr)
-		logger.Info("compound alloced", df.Count(), df.Rem()+df.Count(),
-			"attrSize=", attrSize)
-		bff := df
-		if int64(attrSize) > df.Rem() {
-			logger.Info("Adding fill value reader")
-			// bff = makeFillValueReader(obj, df, attrSize)
-		}
-		attr.df = newResetReaderSave(bff, bff.Rem())
-		logger.Info("rem=", df.Rem(), "nread=", bff.Count())
-	}
 	logger.Info("Finished compound", "rem=", bf.Rem())
 }
 
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index 029142d..a337c28 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -109,10 +109,10 @@ func (enumManagerType) defaultFillValue(obj *object, objFillValue []byte, undefi
 	return objFillValue
 }
 
-func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
+func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
 	logger.Info("blen begin", bf.Count())
 	var enumAttr attribute
-	printDatatype(hr, c, bf, nil, 0, &enumAttr)
+	printDatatype(hr, c, bf, &enumAttr)
 	logger.Info("blen now", bf.Count())
 	numberOfMembers := bitFields & 0b11111111
 	logger.Info("number of members=", numberOfMembers)
@@ -162,8 +162,4 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 
 	logger.Info("enum values:", values)
 	attr.children = []*attribute{&enumAttr}
-	if df != nil && df.Rem() > 0 {
-		// Read away some bytes
-		attr.df = newResetReaderSave(df, df.Rem())
-	}
 }
diff --git a/netcdf/hdf5/fixedPoint.go b/netcdf/hdf5/fixedPoint.go
index 97a4c4f..91e85dc 100644
--- a/netcdf/hdf5/fixedPoint.go
+++ b/netcdf/hdf5/fixedPoint.go
@@ -126,7 +126,7 @@ func (fixedPointManagerType) defaultFillValue(obj *object, objFillValue []byte,
 	return objFillValue
 }
 
-func (fixedPointManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
+func (fixedPointManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
 	logger.Info("* fixed-point")
 	// Same structure for all versions, no need to check
 	byteOrder := bitFields & 0b1
@@ -154,13 +154,6 @@ func (fixedPointManagerType) parse(hr heapReader, c caster, attr *attribute, bit
 	default:
 		thrower.Throw(ErrFixedPoint)
 	}
-	if df == nil {
-		logger.Infof("no data")
-		return
-	}
-	if df.Rem() >= int64(attr.length) {
-		attr.df = newResetReaderSave(df, df.Rem())
-	}
 }
 
 func allocInt8s(bf io.Reader, dimLengths []uint64, signed bool, cast reflect.Type) any {
diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 1951315..643fbfc 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -83,7 +83,7 @@ func (floatingPointManagerType) defaultFillValue(obj *object, _ []byte, undefine
 	return objFillValue
 }
 
-func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
+func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
 	assertError(attr.dtversion == 1, ErrFloatingPoint, "Only support version 1 of float")
 	logger.Info("* floating-point")
 	endian := ((bitFields >> 5) & 0b10) | (bitFields & 0b1)
@@ -142,13 +142,6 @@ func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute,
 		logger.Error("bad dtlenth for fp", attr.length)
 		thrower.Throw(ErrFloatingPoint)
 	}
-	if df == nil {
-		logger.Infof("no data")
-		return
-	}
-	logger.Info("data len", df.Rem())
-	assert(df.Rem() >= int64(attr.length), "floating-point data short")
-	attr.df = newResetReaderSave(df, df.Rem())
 }
 
 func allocFloats(bf io.Reader, dimLengths []uint64, endian binary.ByteOrder) any {
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 40bc2cb..195c54c 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -14,6 +14,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/batchatco/go-native-netcdf/internal"
@@ -184,8 +185,8 @@ type attribute struct {
 	endian        binary.ByteOrder
 	dtversion     uint8
 	creationOrder uint64
-	df            io.Reader
-	noDf          bool
+	data          []byte // of an attribute, nil if its dataspace is null
+	strPad        uint8  // for fixed-length strings
 }
 
 type dataBlock struct {
@@ -214,8 +215,9 @@ type HDF5 struct {
 	groupObject   *object
 	registrations map[string]any
 	addrs         map[uint64]bool
-	heapCache     map[uint64]map[uint32][]byte // cache for global heap object lookups
-	addrToName    map[uint64]string            // lazy cache: object address → name
+	heapCache     *heapCache        // cache for global heap object lookups
+	addrToName    map[uint64]string // object address → name
+	dimIDToName   map[int64]string  // dimension ID → name
 }
 
 type linkInfo struct {
@@ -247,7 +249,14 @@ type object struct {
 	fillValueOld     []byte
 	isGroup          bool
 	creationOrder    uint64
-	attrListIsSorted bool
+}
+
+// heapCache has the objects of the global heap collections that have been read. It is
+// shared by all the groups of a file.
+type heapCache struct {
+	lock        sync.Mutex
+	collections map[uint64]map[uint32][]byte
+	size        int64
 }
 
 // Only the pointer is used here.  We don't actually use the value.
@@ -685,16 +694,29 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 			checkVal(0, z, "zero pad")
 		}
 	}
-	dims, count := h5.readDataspace(newResetReader(bf, int64(dataspaceSize)))
+	dims, isNull := h5.readDataspace(newResetReader(bf, int64(dataspaceSize)))
 	if version == 1 {
 		padBytes(bf, 7)
 	}
 	logger.Info("dimensions are", dims)
-	logger.Info("count objects=", count)
 	attr.dimensions = dims
 	logger.Info("sizeRem=", bf.Rem())
 	pf := newResetReaderFromBytes(dtb)
-	printDatatype(h5, h5, pf, bf, count, attr)
+	printDatatype(h5, h5, pf, attr)
+	if !isNull {
+		size := uint64(attr.length)
+		for _, d := range dims {
+			assertError(d == 0 || size <= uint64(bf.Rem())/d, ErrCorrupted, "attribute data missing")
+			size *= d
+		}
+		assertError(size <= uint64(bf.Rem()), ErrCorrupted, "attribute data missing")
+		attr.data = readBytes(bf, size)
+		if attr.class == typeString && len(dims) == 0 {
+			// Some strings are needed to know what kind of object this is.
+			attr.value = fixedString(attr.data, attr.strPad)
+		}
+	}
+	skip(bf, bf.Rem()) // padding
 	obj.attrlist = append(obj.attrlist, attr)
 }
 
@@ -1210,25 +1232,36 @@ func checkVal(expected, actual any, comment string) {
 }
 
 func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uint64) {
-	// Return from cache on subsequent calls to the same heap collection.
-	if cache, ok := h5.heapCache[heapAddress]; ok {
-		if data, ok := cache[index]; ok {
-			return newResetReaderFromBytes(data), uint64(len(data))
-		}
-		return nil, 0
-	}
-
-	// First visit: parse the entire collection and cache every object.
+	h5.heapCache.lock.Lock()
+	defer h5.heapCache.lock.Unlock()
+	cache, ok := h5.heapCache.collections[heapAddress]
+	if !ok {
+		// First visit: parse the entire collection and cache every object.
+		var size uint64
+		cache, size = h5.readHeapCollection(heapAddress)
+		h5.heapCache.size += int64(size)
+		assertError(h5.heapCache.size <= h5.memoryLimit(), ErrCorrupted, "heap collections overlap")
+		h5.heapCache.collections[heapAddress] = cache
+	}
+	data, ok := cache[index]
+	assertError(ok, ErrCorrupted, "no such object in the global heap")
+	return newResetReaderFromBytes(data), uint64(len(data))
+}
+
+// readHeapCollection returns the objects of a global heap collection and its size
+func (h5 *HDF5) readHeapCollection(heapAddress uint64) (map[uint32][]byte, uint64) {
 	cache := make(map[uint32][]byte)
-	h5.heapCache[heapAddress] = cache
-
 	bf := h5.newSeek(heapAddress, 16) // header is 16 bytes
 	checkMagic(bf, 4, "GCOL")
 	version := read8(bf)
 	checkVal(1, version, "version")
 	checkZeroes(bf, 3)
-	csize := read64(bf) // collection size including these 16 header bytes
-	csize -= 16
+	fullSize := read64(bf) // collection size including these 16 header bytes
+	assertError(fullSize >= 16 && fullSize <= uint64(h5.fileSize), ErrCorrupted, "heap collection size")
+	csize := fullSize - 16
+	if csize == 0 {
+		return cache, fullSize
+	}
 	bf = h5.newSeek(heapAddress+uint64(bf.Count()), int64(csize))
 	for csize >= 16 {
 		hoi := read16(bf) // heap object index
@@ -1238,30 +1271,23 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 		if hoi == 0 {
 			break
 		}
-		rc := read16(bf) // reference count
-		checkVal(0, rc, "refcount")
+		read16(bf)         // reference count, which some files don't leave at zero
 		zero := read32(bf) // reserved
 		checkVal(0, zero, "zero")
 		osize := read64(bf) // object size
 		csize -= 16
 		assert(osize <= csize, "object size invalid")
-		if osize > 0 {
-			asize := (osize + 7) & ^uint64(0x7) // round up to 8-byte boundary
-			assert(asize <= csize, "adjusted size too big")
-			csize -= asize
-			b := make([]byte, osize)
-			read(bf, b)
-			cache[uint32(hoi)] = b
-			if rem := asize - osize; rem > 0 {
-				skip(bf, int64(rem))
-			}
+		asize := (osize + 7) & ^uint64(0x7) // round up to 8-byte boundary
+		assert(asize <= csize, "adjusted size too big")
+		csize -= asize
+		b := make([]byte, osize)
+		read(bf, b)
+		cache[uint32(hoi)] = b
+		if rem := asize - osize; rem > 0 {
+			skip(bf, int64(rem))
 		}
 	}
-
-	if data, ok := cache[index]; ok {
-		return newResetReaderFromBytes(data), uint64(len(data))
-	}
-	return nil, 0
+	return cache, fullSize
 }
 
 func (h5 *HDF5) readHeap(link *linkInfo) {
@@ -1598,7 +1624,8 @@ func headerTypeToString(ty int) string {
 	return htts[ty]
 }
 
-func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
+// readDataspace returns the dimensions and whether the dataspace is null (no data at all).
+func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, bool) {
 	bf := obf.(remReader)
 	version := read8(bf)
 	logger.Info("dataspace message version=", version)
@@ -1629,12 +1656,10 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		fail(fmt.Sprintf("unknown dstype %d", dstype))
 	}
 	ret := make([]uint64, d)
-	count := int64(1)
 	for i := range int(d) {
 		sz := read64(bf)
 		logger.Infof("dataspace dimension %d/%d size=%d", i, d, sz)
 		ret[i] = sz
-		count *= int64(sz)
 	}
 	checkSize(ret, 1)
 	if hasFlag8(flags, 0) {
@@ -1658,7 +1683,7 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 	if version == 2 && dstype == 2 && bf.Rem() > 0 {
 		logger.Info("Null v2 flags=", flags, "d=", d, "rem=", bf.Rem())
 	}
-	return ret, count
+	return ret, dstype == 2
 }
 
 func (h5 *HDF5) readFilterPipeline(obj *object, obf io.Reader) {
@@ -1936,7 +1961,7 @@ func (h5 *HDF5) readDatatype(bf io.Reader) *attribute {
 	logger.Info("print datatype with properties from chunk")
 	var objAttr attribute
 	pf := newResetReader(bf, bf.(remReader).Rem())
-	printDatatype(h5, h5, pf, nil, 0, &objAttr)
+	printDatatype(h5, h5, pf, &objAttr)
 	return &objAttr
 }
 
@@ -1945,6 +1970,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 	bf := newResetReader(obf, int64(chunkSize))
 	logger.Info("top chunksize", chunkSize, "nRead", bf.Count(), "rem", bf.Rem())
 	for bf.Rem() >= 3 {
+		co := uint16(0)
 		var headerType uint16
 		if version == 1 {
 			headerType = read16(bf)
@@ -1999,7 +2025,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 				logger.Info("no chunks to read creation order")
 				break
 			}
-			co := read16(bf)
+			co = read16(bf)
 			logger.Infof("creation order = %d", co)
 		}
 		if size == 0 && version > 1 {
@@ -2042,13 +2068,12 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 		case typeDatatype:
 			obj.isGroup = false
 			logger.Info("Datatype")
-			// Preserve dimensions and noDf from the existing objAttr across the datatype re-read.
-			save := obj.objAttr.dimensions
-			noDf := obj.objAttr.noDf
+			// Preserve dimensions and layout from the existing objAttr across the datatype re-read.
+			save := *obj.objAttr
 			obj.objAttr = h5.readDatatype(f)
 			logger.Info("dimensions are", obj.objAttr.dimensions)
-			obj.objAttr.dimensions = save
-			obj.objAttr.noDf = noDf
+			obj.objAttr.dimensions = save.dimensions
+			obj.objAttr.layout = save.layout
 
 		case typeDataStorageFillValueOld:
 			obj.isGroup = false
@@ -2097,7 +2122,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeAttribute:
 			logger.Infof("Attribute, obj addr=0x%x", obj.addr)
-			h5.readAttribute(obj, f, 0)
+			h5.readAttribute(obj, f, uint64(co))
 
 		case typeObjectComment:
 			comment := readNullTerminatedName(f, 0)
@@ -2473,6 +2498,9 @@ func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 		return nil, ErrNotFound
 	}
 
+	// Attributes() can't return errors, so find out about them now.
+	h5.getAttributes(o.attrlist)
+
 	hg := *h5
 	hg.groupName = groupName
 	hg.groupObject = o
@@ -2521,7 +2549,9 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 		groupObject:   nil,
 		registrations: make(map[string]any),
 		addrs:         make(map[uint64]bool),
-		heapCache:     make(map[uint64]map[uint32][]byte),
+		heapCache:     &heapCache{collections: make(map[uint64]map[uint32][]byte)},
+		addrToName:    make(map[uint64]string),
+		dimIDToName:   make(map[int64]string),
 	}
 	h5.readSuperblock()
 	assert(h5.rootAddr != invalidAddress, "No root address")
@@ -2530,6 +2560,9 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 	h5.groupObject = h5.rootObject
 	h5.groupObject.isGroup = true
 	h5.dumpObject(h5.rootObject)
+	h5.indexObjects(h5.rootObject)
+	// Attributes() can't return errors, so find out about them now.
+	h5.getAttributes(h5.rootObject.attrlist)
 	return api.Group(h5), nil
 }
 
@@ -2549,6 +2582,9 @@ func (h5 *HDF5) dumpObject(obj *object) {
 		h5.readHeap(obj.link)
 		h5.readBTree(obj, obj.link.btreeAddress)
 	}
+	sort.SliceStable(obj.attrlist, func(i, j int) bool {
+		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
+	})
 }
 
 func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
@@ -2826,6 +2862,9 @@ func sliceDimensions(attr *attribute) []uint64 {
 }
 
 func (h5 *HDF5) cast(attr attribute) reflect.Type {
+	if len(h5.registrations) == 0 {
+		return nil
+	}
 	varName := "junk"
 	origNames := map[string]bool{varName: true}
 	for name := range h5.registrations {
@@ -2923,7 +2962,6 @@ loop:
 func (h5 *HDF5) Attributes() api.AttributeMap {
 	// entry point, panic can bubble up
 	assert(h5.groupObject != nil, "nil root object")
-	h5.sortAttrList(h5.groupObject)
 	return h5.getAttributes(h5.groupObject.attrlist)
 }
 
@@ -2933,41 +2971,57 @@ func (h5 *HDF5) hasAddr(addr uint64) bool {
 
 // objectKind holds the results of scanning an object's NetCDF4 metadata attributes.
 type objectKind struct {
-	hasClass       bool // CLASS attribute present
-	hasName        bool // NAME attribute present with a non-dimension-marker value
-	hasCoordinates bool // _Netcdf4Coordinates attribute present
+	hasClass bool // CLASS attribute says it is a dimension scale
+	hasName  bool // NAME attribute doesn't say that it is only a dimension
 }
 
-// classifyObject scans attrlist for the three NetCDF4 metadata attributes that
+// pureDimension is the start of the NAME of a dimension scale that isn't a variable, too.
+const pureDimension = "This is a netCDF dimension but not a netCDF variable"
+
+// classifyObject scans attrlist for the NetCDF4 metadata attributes that
 // distinguish dimension scales, coordinate variables, and regular variables.
-// String attribute values are set immediately during parsing, so this is safe to
-// call before sortAttrList.
+// String attribute values are set immediately during parsing.
 func classifyObject(attrlist []*attribute) objectKind {
-	var k objectKind
+	k := objectKind{hasName: true}
 	for _, a := range attrlist {
+		v, ok := a.value.(string)
 		switch a.name {
 		case "CLASS":
-			k.hasClass = true
+			k.hasClass = ok && v == "DIMENSION_SCALE"
 		case "NAME":
-			if v, ok := a.value.(string); ok && !strings.HasPrefix(v, "This is a netCDF dimension") {
-				k.hasName = true
-			}
-		case "_Netcdf4Coordinates":
-			k.hasCoordinates = true
+			k.hasName = !ok || !strings.HasPrefix(v, pureDimension)
 		}
 	}
 	return k
 }
 
+// isDimension returns true for dimension scales, including coordinate variables
+func (obj *object) isDimension() bool {
+	return !obj.isGroup && len(obj.objAttr.dimensions) > 0 && classifyObject(obj.attrlist).hasClass
+}
+
 // isDimensionScale returns true for pure dimension scales: objects that carry the
-// CLASS attribute but are not also coordinate variables (hasCoordinates or hasName).
+// CLASS attribute but are not also coordinate variables.
 func (k objectKind) isDimensionScale() bool {
-	return k.hasClass && !k.hasCoordinates && !k.hasName
+	return k.hasClass && !k.hasName
+}
+
+// nonCoordPrefix starts the name of a variable which has the name of a dimension but is
+// not its coordinate variable.
+const nonCoordPrefix = "_nc4_non_coord_"
+
+// findObject finds the object for a variable, which may be a dimension or a type, too.
+func (h5 *HDF5) findObject(name string) (*object, bool) {
+	if obj, has := h5.groupObject.children[nonCoordPrefix+name]; has {
+		return obj, true
+	}
+	obj, has := h5.groupObject.children[name]
+	return obj, has && !strings.HasPrefix(name, nonCoordPrefix)
 }
 
 func (h5 *HDF5) findVariable(varName string) *object {
-	obj, has := h5.groupObject.children[varName]
-	if !has {
+	obj, has := h5.findObject(varName)
+	if !has || obj.isGroup {
 		return nil
 	}
 	logger.Info("Found variable", varName, "group", h5.groupName, "child=", obj.name)
@@ -2981,44 +3035,25 @@ func (h5 *HDF5) findVariable(varName string) *object {
 	return obj
 }
 
-func (h5 *HDF5) findGlobalAttrType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+// findAttrType returns the type of an attribute, as printed by printer, and the number
+// of dimensions which its value has in addition to those of the type.
+func (h5 *HDF5) findAttrType(attrlist []*attribute, attrName string,
+	printer printerType) (string, int, bool) {
+	for _, attr := range attrlist {
 		if attr.name != attrName {
 			continue
 		}
 		origNames := map[string]bool{}
-		base := cdlTypeString(attr.class, h5, attrName, attr, origNames)
-		dims := ""
-		if len(attr.dimensions) == 1 && attr.dimensions[0] == 1 {
-		} else {
-			for range attr.dimensions {
-				dims += "(*)"
-			}
+		base := printer(attr.class, h5, attrName, attr, origNames)
+		nDims := len(attr.dimensions)
+		if attr.class == typeString && attr.length == 1 && nDims > 0 {
+			nDims-- // the last dimension is the string's
+		} else if nDims == 1 && attr.dimensions[0] == 1 {
+			nDims = 0
 		}
-		return base + dims
+		return base, nDims, base != ""
 	}
-	fail("didn't find attribute type")
-	panic("silence warning")
-}
-
-func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
-		if attr.name != attrName {
-			continue
-		}
-		origNames := map[string]bool{}
-		base := goTypeString(attr.class, h5, attrName, attr, origNames)
-		dims := ""
-		if len(attr.dimensions) == 1 && attr.dimensions[0] == 1 {
-		} else {
-			for range attr.dimensions {
-				dims += "[]"
-			}
-		}
-		return dims + base
-	}
-	fail("didn't find attribute type")
-	panic("silence warning")
+	return "", 0, false
 }
 
 func (h5 *HDF5) findType(varName string) string {
@@ -3086,18 +3121,15 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 // ListTypes returns the user-defined type names.
 func (h5 *HDF5) ListTypes() []string {
 	var ret []string
-	for typeName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
 		if obj.isGroup {
 			continue
 		}
-		if classifyObject(obj.attrlist).isDimensionScale() {
-			continue
-		}
 		if obj.objAttr.dimensions != nil {
 			// this is a variable
 			continue
 		}
-		ret = append(ret, typeName)
+		ret = append(ret, obj.name)
 	}
 	return ret
 }
@@ -3107,11 +3139,7 @@ func (h5 *HDF5) ListDimensions() []string {
 	var ret []string
 	children := h5.groupObject.sortChildren()
 	for _, obj := range children {
-		if obj.isGroup {
-			continue
-		}
-		k := classifyObject(obj.attrlist)
-		if k.hasClass && (k.hasName || !k.hasCoordinates) {
+		if obj.isDimension() {
 			ret = append(ret, obj.name)
 		}
 	}
@@ -3121,16 +3149,11 @@ func (h5 *HDF5) ListDimensions() []string {
 // GetDimension returns the size of the given dimension and sets
 // the bool to true if found.
 func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
-	for _, obj := range h5.groupObject.children {
-		if obj.isGroup {
-			continue
-		}
-		k := classifyObject(obj.attrlist)
-		if k.hasClass && (k.hasName || !k.hasCoordinates) && obj.name == name {
-			return obj.objAttr.dimensions[0], true
-		}
+	obj, has := h5.groupObject.children[name]
+	if !has || !obj.isDimension() {
+		return 0, false
 	}
-	return 0, false
+	return obj.objAttr.dimensions[0], true
 }
 
 func (h5 *HDF5) findSignature(signature string, name string, origNames map[string]bool, printer printerType) string {
@@ -3158,49 +3181,66 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 	return ""
 }
 
-func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
-	if a.df != nil {
-		a.df = makeFillValueReader(obj, a.df, int64(calcAttrSize(a)))
-		logger.Infof("Reparsing attribute %s %s %p", a.name, typeNames[a.class], a)
-		// Temporarily suppress registrations for internal HDF5 attributes to avoid side effects.
-		save := h5.registrations
-		switch a.name {
-		case "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
-			h5.registrations = nil
+// isHiddenAttr returns true for the attributes that NetCDF-4 uses internally
+func isHiddenAttr(name string) bool {
+	switch name {
+	case "_Netcdf4Dimid", "_Netcdf4Coordinates", "_nc3_strict", "DIMENSION_LIST", "NAME",
+		"REFERENCE_LIST", "CLASS":
+		return true
+	}
+	return false
+}
+
+// noCaster is used for internal attributes, which aren't cast to the user's types.
+type noCaster struct{}
+
+func (noCaster) cast(attr attribute) reflect.Type {
+	return nil
+}
+
+// attrValue returns the value of an attribute, which is nil if it is not of a supported
+// type.
+func (h5 *HDF5) attrValue(a *attribute) any {
+	if a.value != nil {
+		return a.value
+	}
+	var cstr caster = h5
+	if isHiddenAttr(a.name) {
+		cstr = noCaster{}
+	}
+	attr := *a
+	if attr.data == nil {
+		// The dataspace is null
+		if attr.class == typeString {
+			return ""
 		}
-		a.value = getDataAttr(h5, h5, a.df, *a)
-		a.df = nil
-		h5.registrations = save
+		attr.dimensions = []uint64{0}
 	}
+	h5.checkMemory(attr.dimensions, &attr)
+	return getDataAttr(h5.newValueHeap(), cstr, newResetReaderFromBytes(attr.data), attr)
 }
 
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	filtered := make(map[string]any)
-	for i := range unfiltered {
-		val := unfiltered[i]
+	keys := []string{}
+	for _, val := range unfiltered {
 		logger.Infof("getting attribute %s %p", val.name, val)
-		switch val.name {
-		case "_Netcdf4Dimid", "_Netcdf4Coordinates", "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
-			logger.Infof("Found a %v %v %T", val.name, val.value, val.value)
-		default:
-			if val.value == nil {
-				if val.df == nil {
-					logger.Info("Need fill value reader", val.name)
-					fakeObj := newObject()
-					sz := calcAttrSize(val)
-					val.df = makeFillValueReader(fakeObj, nil, int64(sz))
-				}
-				val.value = getDataAttr(h5, h5, val.df, *val)
-			}
-			value := undoScalarAttribute(val.value)
-			filtered[val.name] = value
+		if isHiddenAttr(val.name) {
+			continue
 		}
+		value := h5.attrValue(val)
+		if value == nil {
+			continue
+		}
+		if len(val.dimensions) == 1 && val.dimensions[0] == 1 {
+			value = undoScalarAttribute(value)
+		}
+		if _, has := filtered[val.name]; !has {
+			keys = append(keys, val.name)
+		}
+		filtered[val.name] = value
 	}
-	keys := []string{}
-	for key := range filtered {
-		keys = append(keys, key)
-	}
-	om, err := newTypedAttributeMap(h5, keys, filtered)
+	om, err := newAttributeMap(h5, unfiltered, keys, filtered)
 	thrower.ThrowIfError(err)
 	om.Hide(ncpKey)
 	return om
@@ -3209,22 +3249,11 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 // A scalar attribute can be stored as a single-length array.
 // This code undoes that to return an actual scalar.
 func undoScalarAttribute(value any) any {
-	// Opaque is a slice, but we don't want to undo it.
-	_, has := value.(opaque)
-	if has {
-		return value
-	}
-	_, has = value.(enumerated)
 	// Enumerated that haven't been cast can also be slices.
-	if has {
-		e, has := value.(enumerated)
-		if has {
-			e.values = undoScalarAttribute(e.values)
-			value = e
-		}
-		return value
+	if e, has := value.(enumerated); has {
+		e.values = undoScalarAttribute(e.values)
+		return e
 	}
-	// All other slices are undone
 	v := reflect.ValueOf(value)
 	if v.Kind() == reflect.Slice && v.Len() == 1 {
 		v = v.Index(0)
@@ -3232,93 +3261,82 @@ func undoScalarAttribute(value any) any {
 	return v.Interface()
 }
 
-// addrIndex builds and caches a flat map from every object's address to its name.
-// This replaces the previous recursive findDim which did an O(N) tree traversal
-// for each dimension lookup; with the map, each lookup is O(1) after one O(N) build.
-func (h5 *HDF5) addrIndex() map[uint64]string {
-	if h5.addrToName != nil {
-		return h5.addrToName
+// indexObjects fills in the map from every object's address to its name and
+// the one from the IDs of the dimensions to their names.
+func (h5 *HDF5) indexObjects(obj *object) {
+	for _, child := range obj.sortChildren() {
+		if _, has := h5.addrToName[child.addr]; !has {
+			h5.addrToName[child.addr] = child.name
+		}
+		if child.isDimension() {
+			for _, a := range child.attrlist {
+				if a.name != "_Netcdf4Dimid" {
+					continue
+				}
+				if ids := h5.dimIDs(a); len(ids) == 1 {
+					h5.dimIDToName[ids[0]] = child.name
+				}
+			}
+		}
+		h5.indexObjects(child)
 	}
-	m := make(map[uint64]string)
-	var walk func(*object)
-	walk = func(obj *object) {
-		m[obj.addr] = obj.name
-		for _, child := range obj.children {
-			walk(child)
+}
+
+// dimIDs returns the dimension IDs in an internal attribute
+func (h5 *HDF5) dimIDs(a *attribute) []int64 {
+	var ids []int64
+	switch v := h5.attrValue(a).(type) {
+	case int32:
+		ids = append(ids, int64(v))
+	case []int32:
+		for _, id := range v {
+			ids = append(ids, int64(id))
 		}
 	}
-	walk(h5.rootObject)
-	h5.addrToName = m
-	return m
+	return ids
 }
 
+// getDimensions returns the names of the dimensions, or nil if they don't have names.
 func (h5 *HDF5) getDimensions(obj *object) []string {
 	logger.Infof("Getting dimensions addr 0x%x", obj.addr)
-	dimNames := make([]string, 0)
-	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
-		a := obj.attrlist[i]
-		if a.name != "DIMENSION_LIST" {
-			continue
-		}
-		logger.Infof("DIMENSION_LIST=%T 0x%x", a.value, a.value)
-		varLen := a.value.([][]uint64)
-		addrToName := h5.addrIndex()
-		for _, v := range varLen {
-			for i, addr := range v {
-				// Each entry in the dimension list is a uint64 object address.
-				logger.Infof("dimension list %d 0x%x)", i, addr)
-				if name := addrToName[addr]; name != "" {
-					logger.Info("dim found", name)
-					dimNames = append(dimNames, name)
-				}
-			}
+	dimNames := make([]string, len(obj.objAttr.dimensions))
+	if len(dimNames) == 0 {
+		return dimNames
+	}
+	hasNames := false
+	setName := func(i int, name string) {
+		if i < len(dimNames) && name != "" && dimNames[i] == "" {
+			dimNames[i] = name
+			hasNames = true
 		}
 	}
-	if len(dimNames) > 0 {
-		return dimNames
+	if obj.isDimension() {
+		// Coordinate variables are their own first dimension
+		setName(0, strings.TrimPrefix(obj.name, nonCoordPrefix))
 	}
-
-	var f func(ob *object)
-	f = func(ob *object) {
-		logger.Infof("obj %s 0x%x", ob.name, ob.addr)
-		for i := range ob.attrlist {
-			h5.parseAttr(ob, ob.attrlist[i])
-			a := ob.attrlist[i]
-			if a.name != "REFERENCE_LIST" {
-				continue
+	for _, a := range obj.attrlist {
+		switch a.name {
+		case "DIMENSION_LIST":
+			varLen, ok := h5.attrValue(a).([][]uint64)
+			assertError(ok, ErrCorrupted, "dimension list has the wrong type")
+			for i, v := range varLen {
+				if len(v) > 0 {
+					// Each entry in the dimension list is a uint64 object address.
+					setName(i, h5.addrToName[v[0]])
+				}
 			}
-			logger.Infof("value is %T %v", a.value, a.value)
-			for k, v := range a.value.([]compound) {
-				vals2 := v
-				v0 := vals2[0].Val.(uint64)
-				v1, has := vals2[1].Val.(int32)
-				if !has {
-					// Recent versions of netcdf tools generate unsigned for the dimension.
-					logger.Info("Unsigned reference dimension")
-					uv1 := vals2[1].Val.(uint32)
-					v1 = int32(uv1)
+		case "_Netcdf4Coordinates":
+			if obj.isDimension() {
+				for i, id := range h5.dimIDs(a) {
+					setName(i, h5.dimIDToName[id])
 				}
-				logger.Infof("single ref %d 0x%x %d %s", k, v0, v1, ob.name)
 			}
 		}
-		for _, o := range ob.children {
-			f(o)
-		}
 	}
-	f(h5.rootObject)
-	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
-		a := obj.attrlist[i]
-		switch a.name {
-		case "NAME":
-			nameValue := a.value.(string)
-			if !strings.HasPrefix(nameValue, "This is a netCDF dimension") {
-				return append(dimNames, nameValue)
-			}
-		}
+	if !hasNames {
+		return nil
 	}
-	return nil
+	return dimNames
 }
 
 // GetVariable returns the named variable or sets the error if not found.
@@ -3334,7 +3352,6 @@ func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 	if data == nil {
 		return nil, ErrNotFound
 	}
-	h5.sortAttrList(found)
 	dims := h5.getDimensions(found)
 	attrs := h5.getAttributes(found.attrlist)
 	return &api.Variable{
@@ -3355,7 +3372,6 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		logger.Warnf("variable %s not found", varName)
 		return nil, ErrNotFound
 	}
-	h5.sortAttrList(found)
 	d := int64(0)
 	fakeEnd := false
 	switch {
@@ -3438,50 +3454,25 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 // ListSubgroups returns the names of the subgroups of this group.
 func (h5 *HDF5) ListSubgroups() []string {
 	// entry point
-	// Only go one level down
 	var ret []string
-	var sgDescend func(obj *object, group string)
-	sgDescend = func(obj *object, group string) {
-		if !obj.isGroup {
-			return
-		}
-		if group != h5.groupName && strings.HasPrefix(group, h5.groupName) {
-			// Is a subgroup.  Get the basename of this child.
-			tail := group[len(h5.groupName):]
-			tail = tail[:len(tail)-1] // trim trailing slash
-			assertError(!strings.Contains(tail, "/"), ErrInternal, "trailing slash")
-			ret = append(ret, tail)
-			return
-		}
-		obj.sortChildren()
-		for _, o := range obj.children {
-			sgDescend(o, group+o.name+"/")
+	for _, obj := range h5.groupObject.sortChildren() {
+		if obj.isGroup {
+			ret = append(ret, obj.name)
 		}
 	}
-	sgDescend(h5.rootObject, "/")
 	return ret
 }
 
-func (h5 *HDF5) sortAttrList(obj *object) {
-	if obj.attrListIsSorted {
-		return
-	}
-	for i := range obj.attrlist {
-		h5.parseAttr(obj, obj.attrlist[i])
-	}
-	sort.Slice(obj.attrlist, func(i, j int) bool {
-		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
-	})
-	obj.attrListIsSorted = true
-}
-
 func (obj *object) sortChildren() []*object {
 	var children []*object
 	for _, child := range obj.children {
 		children = append(children, child)
 	}
 	sort.Slice(children, func(i, j int) bool {
-		return children[i].creationOrder < children[j].creationOrder
+		if children[i].creationOrder != children[j].creationOrder {
+			return children[i].creationOrder < children[j].creationOrder
+		}
+		return children[i].name < children[j].name
 	})
 	return children
 }
@@ -3490,21 +3481,12 @@ func (obj *object) sortChildren() []*object {
 func (h5 *HDF5) ListVariables() []string {
 	// entry point, panic can bubble up
 	var ret []string
-	var descend func(obj *object, group string)
-	descend = func(obj *object, group string) {
-		children := obj.sortChildren()
-		for _, o := range children {
-			if group == h5.groupName && o.name != "" {
-				if h5.findVariable(o.name) != nil {
-					logger.Info("append", o.name)
-					ret = append(ret, o.name)
-				}
-				continue
-			}
-			descend(o, group+o.name+"/")
+	for _, obj := range h5.groupObject.sortChildren() {
+		name := strings.TrimPrefix(obj.name, nonCoordPrefix)
+		if h5.findVariable(name) == obj {
+			ret = append(ret, name)
 		}
 	}
-	descend(h5.rootObject, "/")
 	return ret
 }
 
diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 50b9cfb..647e905 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -43,7 +43,7 @@ func (opaqueManagerType) defaultFillValue(obj *object, objFillValue []byte, unde
 	return objFillValue
 }
 
-func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
+func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
 	if bf.Rem() == 0 {
 		logger.Info("No properties for opaque")
 		return
@@ -59,9 +59,6 @@ func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFiel
 		checkVal(0, tag[i],
 			fmt.Sprint("reserved byte should be zero: ", i))
 	}
-	if df != nil && df.Rem() >= int64(attr.length) {
-		attr.df = newResetReaderSave(df, df.Rem())
-	}
 }
 
 func allocOpaque(bf io.Reader, dimLengths []uint64, length uint32,
diff --git a/netcdf/hdf5/reference.go b/netcdf/hdf5/reference.go
index 61a323d..f758e7f 100644
--- a/netcdf/hdf5/reference.go
+++ b/netcdf/hdf5/reference.go
@@ -6,7 +6,6 @@ import (
 	"reflect"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
-	"github.com/batchatco/go-thrower"
 )
 
 type referenceManagerType struct{}
@@ -28,6 +27,8 @@ func (referenceManagerType) goTypeString(sh sigHelper, name string, attr *attrib
 
 func (referenceManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attribute,
 	dimensions []uint64) any {
+	// Region references, which aren't in NetCDF at all, are longer
+	assertError(attr.length == 8, ErrReference, "not an object reference")
 	return allocReferences(bf, dimensions) // already converted
 }
 
@@ -35,7 +36,7 @@ func (referenceManagerType) defaultFillValue(obj *object, objFillValue []byte, u
 	return objFillValue
 }
 
-func (referenceManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
+func (referenceManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
 	logger.Info("* reference")
 	assertError(attr.dtversion == 1, ErrUnsupportedReferenceVersion, "Only support version 1 of reference")
 	rType := bitFields & 0b1111
@@ -45,24 +46,11 @@ func (referenceManagerType) parse(hr heapReader, c caster, attr *attribute, bitF
 	case 1:
 		break
 	default:
-		assert(df == nil, "references can't be attributes")
 		maybeFail(fmt.Sprintf("invalid rtype value: %#b dtlength=%v", rType, attr.length))
 		return
 	}
 	logger.Info("* rtype=object")
 	warnAssert((bitFields & ^uint32(0b1111)) == 0, "reserved must be zero")
-	if df == nil {
-		logger.Infof("no data")
-		return
-	}
-	// References are not part of NetCDF.  We only support them
-	// for internal metadata attributes (like DIMENSION_LIST).
-	if df.Rem() >= int64(attr.length) {
-		attr.df = newResetReaderSave(df, df.Rem())
-	} else {
-		// If it's not an attribute, it's a variable (data), which we don't support.
-		thrower.Throw(ErrReference)
-	}
 }
 
 func allocReferences(bf io.Reader, dimLengths []uint64) any {
diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index 4721ee1..fd813e3 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -1,6 +1,7 @@
 package hdf5
 
 import (
+	"bytes"
 	"io"
 	"reflect"
 )
@@ -23,7 +24,7 @@ func (stringManagerType) goTypeString(sh sigHelper, name string, attr *attribute
 func (stringManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attribute,
 	dimensions []uint64) any {
 	logger.Info("regular string", len(dimensions), "dtlen=", attr.length)
-	return allocRegularStrings(bf, dimensions, attr.length) // already converted
+	return allocRegularStrings(bf, dimensions, attr) // already converted
 }
 
 func (stringManagerType) defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte {
@@ -31,52 +32,51 @@ func (stringManagerType) defaultFillValue(obj *object, objFillValue []byte, unde
 	return []byte{0}
 }
 
-func (stringManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
-	checkVal(1, attr.dtversion, "Only support version 1 of string")
+func (stringManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
 	logger.Info("string")
 	padding := bitFields & 0b1111
-	set := (bitFields >> 3) & 0b1111
-	if df == nil {
-		logger.Infof("no data")
-		return
+	set := (bitFields >> 4) & 0b1111
+	logger.Infof("* string padding=%d set=%d", padding, set)
+	attr.strPad = uint8(padding)
+}
+
+// fixedString returns the value of a fixed-length string. Only null-terminated ones end at
+// the first null, in the others the nulls are padding, which can only be at the end.
+func fixedString(b []byte, pad uint8) string {
+	if pad == 0 {
+		return getString(b)
 	}
-	b := make([]byte, df.Rem())
-	read(df, b)
-	logger.Infof("* string padding=%d set=%d b[%s]=%s", padding, set,
-		attr.name, getString(b))
-	attr.value = getString(b)
+	return string(bytes.TrimRight(b, "\x00"))
 }
 
 // Regular strings are fixed length, as opposed to variable length ones
-func allocRegularStrings(bf io.Reader, dimLengths []uint64, dtlen uint32) any {
-	if len(dimLengths) == 0 {
+func allocRegularStrings(bf io.Reader, dimLengths []uint64, attr *attribute) any {
+	dtlen := uint64(attr.length)
+	// NetCDF convention: character arrays are returned with their last dimension as a
+	// single concatenated string.
+	// However, HDF5 strings can also be arrays of strings.
+	// If dtlen is 1, it's definitely a character array.
+	// If dtlen > 1, it's an array of strings.
+	isChars := dtlen == 1
+	if len(dimLengths) == 0 || (len(dimLengths) == 1 && isChars) {
+		pad := attr.strPad
+		for _, d := range dimLengths {
+			dtlen *= d
+			pad = 1
+		}
 		b := make([]byte, dtlen)
 		read(bf, b)
-		return getString(b)
+		return fixedString(b, pad)
 	}
 	thisDim := dimLengths[0]
-	if len(dimLengths) == 1 {
-		// NetCDF convention: 1D character arrays are returned as a single concatenated string.
-		// However, HDF5 strings can also be arrays of strings.
-		// If dtlen is 1, it's definitely a character array.
-		// If dtlen > 1, it's an array of strings.
-		if dtlen == 1 {
-			b := make([]byte, thisDim)
-			read(bf, b)
-			return getString(b)
-		}
-		values := make([]string, thisDim)
-		for i := uint64(0); i < thisDim; i++ {
-			b := make([]byte, dtlen)
-			read(bf, b)
-			values[i] = getString(b)
-		}
-		return values
-	}
 	ty := reflect.TypeOf("")
-	vals := makeSlices(ty, dimLengths)
+	sliceDims := dimLengths
+	if isChars {
+		sliceDims = dimLengths[:len(dimLengths)-1]
+	}
+	vals := makeSlices(ty, sliceDims)
 	for i := uint64(0); i < thisDim; i++ {
-		vals.Index(int(i)).Set(reflect.ValueOf(allocRegularStrings(bf, dimLengths[1:], dtlen)))
+		vals.Index(int(i)).Set(reflect.ValueOf(allocRegularStrings(bf, dimLengths[1:], attr)))
 	}
 	return vals.Interface()
 }
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index e1e8734..6d97576 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -11,7 +11,7 @@ import (
 
 // Each type implements this interface.
 type typeManager interface {
-	parse(hr heapReader, c caster, attr *attribute, bitFields uint32, f remReader, d remReader)
+	parse(hr heapReader, c caster, attr *attribute, bitFields uint32, f remReader)
 	defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte
 	alloc(hr heapReader, c caster, r io.Reader, attr *attribute, dimensions []uint64) any
 	cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string
@@ -58,7 +58,7 @@ type unsupportedManager struct {
 	class int
 }
 
-func (um unsupportedManager) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, f remReader, d remReader) {
+func (um unsupportedManager) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, f remReader) {
 	switch um.class {
 	case typeBitField:
 		thrower.Throw(ErrBitfield)
@@ -66,9 +66,6 @@ func (um unsupportedManager) parse(hr heapReader, c caster, attr *attribute, bit
 		warnOnce.Do(func() {
 			logger.Warn("HDF5 time type is obsolete and ignored")
 		})
-		if d != nil {
-			skip(d, d.Rem())
-		}
 	default:
 		thrower.Throw(ErrUnsupportedDataTypeVersion)
 	}
@@ -94,8 +91,8 @@ func getDispatch(class uint8) typeManager {
 }
 
 // parse is a wrapper around the table lookup of the type to get the interface
-func parse(class uint8, hr heapReader, c caster, attr *attribute, bitFields uint32, f remReader, d remReader) {
-	getDispatch(class).parse(hr, c, attr, bitFields, f, d)
+func parse(class uint8, hr heapReader, c caster, attr *attribute, bitFields uint32, f remReader) {
+	getDispatch(class).parse(hr, c, attr, bitFields, f)
 }
 
 // defaultFillValue is a wrapper around the table lookup of the type to get the interface
@@ -115,7 +112,7 @@ func goTypeString(class uint8, sh sigHelper, name string, attr *attribute, origN
 	return getDispatch(class).goTypeString(sh, name, attr, origNames)
 }
 
-func printDatatype(hr heapReader, c caster, bf remReader, df remReader, objCount int64, attr *attribute) {
+func printDatatype(hr heapReader, c caster, bf remReader, attr *attribute) {
 	assert(bf.Rem() >= 8, "short data")
 	b0 := read8(bf)
 	b1 := read8(bf)
@@ -145,11 +142,5 @@ func printDatatype(hr heapReader, c caster, bf remReader, df remReader, objCount
 	attr.class = dtclass
 	attr.length = dtlength
 	assert(attr.length != 0, "attr length can't be zero")
-	parse(dtclass, hr, c, attr, bitFields, bf, df)
-	if df != nil && df.Rem() > 0 {
-		// Datatype property sections are padded to 8-byte boundaries per the HDF5 spec;
-		// the remaining bytes are padding and are safe to skip.
-		logger.Info("did not read all data", df.Rem(), typeNames[dtclass])
-		skip(df, df.Rem())
-	}
+	parse(dtclass, hr, c, attr, bitFields, bf)
 }
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index bbf8091..10efc66 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -47,7 +47,7 @@ func (vlenManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	return signature
 }
 
-func (vlenManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
+func (vlenManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
 	logger.Info("* variable-length, dtlength=", attr.length,
 		"proplen=", bf.Rem())
 	// checkVal(1, dtversion, "Only support version 1 of variable-length")
@@ -72,22 +72,10 @@ func (vlenManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 		fail("unknown variable-length type")
 	}
 	var variableAttr attribute
-	printDatatype(hr, c, bf, nil, 0, &variableAttr)
+	printDatatype(hr, c, bf, &variableAttr)
 	logger.Info("variable class", variableAttr.class, "vtType", vtType)
 	attr.children = append(attr.children, &variableAttr)
 	attr.vtType = vtType
-	rem := int64(0)
-	if df != nil {
-		rem = df.Rem()
-	}
-	if rem < int64(attr.length) {
-		logger.Infof("variable-length short data: %d vs. %d", rem, attr.length)
-		return
-	}
-	logger.Info("len data is", rem, "dlen", df.Count())
-
-	attr.df = newResetReaderSave(df, df.Rem())
-	logger.Infof("Type of this vattr: %T", attr.value)
 }
 
 func (vlenManagerType) defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte {
-- 
2.43.0


From 8626d195a5659ad7f7676e05a62c3631fa67a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 14/35] fix: hdf5: follow links, heaps and B-trees of every
 kind the format has, and check them before use

---
 netcdf/hdf5/assert.go  |   9 +-
 netcdf/hdf5/hdf5.go    | 781 +++++++++++++++++++++--------------------
 netcdf/hdf5/readers.go |   2 +
 3 files changed, 405 insertions(+), 387 deletions(-)

diff --git a/netcdf/hdf5/assert.go b/netcdf/hdf5/assert.go
index ad19e48..afd528e 100644
--- a/netcdf/hdf5/assert.go
+++ b/netcdf/hdf5/assert.go
@@ -16,10 +16,15 @@ const (
 )
 
 var (
-	logFunc   = logger.Fatal // logging function for padBytesCheck()
-	maybeFail = fail         // fail function, can be disabled for testing
+	logFunc   = corrupted // logging function for padBytesCheck()
+	maybeFail = fail      // fail function, can be disabled for testing
 )
 
+// Panics with what was found in a corrupted file
+func corrupted(v ...any) {
+	failError(ErrCorrupted, fmt.Sprint(v...))
+}
+
 // Panics if condition isn't met
 func assert(condition bool, msg string) {
 	if condition {
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 195c54c..4e663db 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"math"
+	"math/bits"
 	"os"
 	"reflect"
 	"sort"
@@ -214,21 +215,35 @@ type HDF5 struct {
 	rootObject    *object
 	groupObject   *object
 	registrations map[string]any
-	addrs         map[uint64]bool
-	heapCache     *heapCache        // cache for global heap object lookups
-	addrToName    map[uint64]string // object address → name
-	dimIDToName   map[int64]string  // dimension ID → name
+	addrs         map[uint64]*object // all objects found so far
+	chunks        map[uint64]bool    // all object header continuations read so far
+	depth         int                // of what's being read
+	heapCache     *heapCache         // cache for global heap object lookups
+	addrToName    map[uint64]string  // object address → name
+	dimIDToName   map[int64]string   // dimension ID → name
 }
 
 type linkInfo struct {
 	heapAddress      uint64
 	btreeAddress     uint64
-	block            []uint64
-	iBlock           []uint64
 	maxHeapSize      int
 	blockSize        uint64
 	tableWidth       uint16
 	maximumBlockSize uint64
+	idLength         uint16
+	maxObjectSize    uint32
+	hasChecksums     bool
+	hugeAddress      uint64              // B-tree of huge objects
+	hugeObjects      map[uint64]hugeInfo // by ID
+	rootAddress      uint64
+	rootRows         uint16              // zero if the root is a direct block
+	indirect         map[uint64][]uint64 // contents of the indirect blocks read
+	verified         map[uint64]bool     // direct blocks
+}
+
+type hugeInfo struct {
+	addr   uint64
+	length uint64
 }
 
 type object struct {
@@ -249,6 +264,7 @@ type object struct {
 	fillValueOld     []byte
 	isGroup          bool
 	creationOrder    uint64
+	isComplete       bool // it and everything in it has been read
 }
 
 // heapCache has the objects of the global heap collections that have been read. It is
@@ -408,12 +424,21 @@ func readEnc(r io.Reader, e uint8) uint64 {
 		return uint64(read32(r))
 	case 8:
 		return read64(r)
+	case 3, 5, 6, 7:
+		var b [8]byte
+		read(r, b[:e])
+		return binary.LittleEndian.Uint64(b[:])
 	default:
 		fail(fmt.Sprint("bad encoded length: ", e))
 	}
 	panic("not reached") // silence warning
 }
 
+// encSize returns the number of bytes needed to encode values up to the given limit
+func encSize(limit uint64) uint8 {
+	return uint8((bits.Len64(limit|1) + 7) / 8)
+}
+
 func (h5 *HDF5) checkChecksum(addr uint64, blen int) {
 	bf := h5.newSeek(addr, int64(blen)+4) // +4 for checksum
 	hash := computeChecksumStream(bf, blen)
@@ -503,7 +528,6 @@ func (h5 *HDF5) readSuperblock() {
 
 		s := read16(bf)
 		logger.Info("Group leaf node k", s)
-		assert(s == 4, "Group leaf node K assumed to be 4 always")
 		s = read16(bf)
 		logger.Info("Group internal node k", s)
 
@@ -636,7 +660,7 @@ func readNullTerminatedName(bf io.Reader, padding int) string {
 }
 
 // Assumes it is an attribute
-func (h5 *HDF5) readAttributeDirect(obj *object, addr uint64, offset uint64, length uint16,
+func (h5 *HDF5) readAttributeDirect(obj *object, addr uint64, offset uint64, length uint64,
 	creationOrder uint64) {
 	logger.Infof("* addr=0x%x offset=0x%x length=%d", addr, offset, length)
 	logger.Info("read Attributes at:", addr+offset)
@@ -720,70 +744,114 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	obj.attrlist = append(obj.attrlist, attr)
 }
 
-type doublerCallback func(obj *object, bnum uint64, offset uint64, length uint16,
+type doublerCallback func(obj *object, bnum uint64, offset uint64, length uint64,
 	creationOrder uint64)
 
-// Handling doubling table.  Assume width of 4.
-func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length uint16, creationOrder uint64, callback doublerCallback) {
-	logger.Infof("doubling start: offset=0x%x length=%d blocksize=%d block=%x iblock=%x", offset, length, link.blockSize, link.block, link.iBlock)
-	blockSize := link.blockSize
-	blockToUse := invalidAddress
-	// First try direct blocks
-	width := int(link.tableWidth)
-	for entryNum, block := range link.block {
-		if offset < blockSize && block != invalidAddress {
-			blockToUse = block
-			break
-		}
-		offset -= blockSize
-		row := entryNum / width
-		// We double the third row and beyond, up to the maximum.
-		// test is if we are at the end of a row, then we may double.
-		if row >= 1 && (entryNum%width) == (width-1) && blockSize < link.maximumBlockSize {
-			logger.Info("doubled block size", blockSize, "->", blockSize*2, "row=", row,
-				"max=", link.maximumBlockSize)
-			blockSize *= 2
-		}
-	}
-	if offset < blockSize && blockToUse != invalidAddress {
-		callback(obj, blockToUse, offset, length, creationOrder)
-		return
+// rowSize returns the size of the blocks in the given row of a doubling table.
+func (link *linkInfo) rowSize(row int) uint64 {
+	if row <= 1 {
+		return link.blockSize
 	}
+	return link.blockSize << (row - 1)
+}
 
-	// now try indirect blocks
-	logger.Infof("Using indirect blocks offset=0x%x", offset)
-	blockSize *= 2
-	// blockSize = link.blockSize
-	for entryNum, block := range link.iBlock {
-		logger.Infof("Trying block 0x%x offset=0x%x", block, offset)
-		if offset < blockSize && block != invalidAddress {
-			logger.Infof("Found indirect block 0x%x offset=0x%x", block, offset)
-			blockToUse = block
-			break
+// maxDirectRows returns the number of rows in a doubling table that are direct blocks.
+func (link *linkInfo) maxDirectRows() int {
+	return log2(link.maximumBlockSize) - log2(link.blockSize) + 2
+}
+
+// findBlock finds the direct block which has the offset. It returns its address and the
+// offset in it.
+func (h5 *HDF5) findBlock(link *linkInfo, offset uint64) (uint64, uint64) {
+	if link.rootRows == 0 {
+		h5.verifyBlock(link, link.rootAddress, link.blockSize)
+		return link.rootAddress, offset
+	}
+	width := uint64(link.tableWidth)
+	addr := link.rootAddress
+	nrows := int(link.rootRows)
+	for {
+		entries := h5.readIndirectBlock(link, addr, nrows)
+		row := 0
+		rowOffset := uint64(0)
+		if offset >= link.blockSize*width {
+			row = log2(offset) - log2(link.blockSize*width) + 1
+			rowOffset = (link.blockSize * width) << (row - 1)
 		}
-		offset -= blockSize
-		if (entryNum % width) == (width - 1) {
-			logger.Warn("INDIRECT doubled block size", blockSize, "->", blockSize*2,
-				"max=", link.maximumBlockSize)
-			blockSize *= 2
+		assertError(row < nrows, ErrCorrupted, "offset is outside of the heap")
+		size := link.rowSize(row)
+		col := (offset - rowOffset) / size
+		offset = (offset - rowOffset) % size
+		addr = entries[row*int(width)+int(col)]
+		assertError(addr != invalidAddress, ErrCorrupted, "offset is not in the heap")
+		if row < link.maxDirectRows() {
+			h5.verifyBlock(link, addr, size)
+			return addr, offset
 		}
+		logger.Infof("Using indirect block 0x%x offset=0x%x", addr, offset)
+		nrows = log2(size) - log2(link.blockSize*width) + 1
 	}
-	assert(blockToUse != invalidAddress, "did not find direct or indirect block")
-
-	nextLink := *link
-
-	logger.Infof("Read indirect block 0x%x %d", blockToUse, blockSize)
-	nrows := log2(blockSize) - log2(link.blockSize*uint64(width)) + 1
-	logger.Info("calculated rows=", nrows, "blocksize=", blockSize)
-	h5.readRootBlock(&nextLink, blockToUse, uint16(nrows))
-
-	h5.readLinkData(obj, &nextLink, offset, length, creationOrder, callback)
 }
 
-func (h5 *HDF5) readLinkData(obj *object, link *linkInfo, offset uint64, length uint16,
+// verifyBlock verifies the checksum of a direct block in a fractal heap.
+func (h5 *HDF5) verifyBlock(link *linkInfo, addr uint64, size uint64) {
+	if link.verified[addr] {
+		return
+	}
+	bf := h5.newSeek(addr, int64(size))
+	checkMagic(bf, 4, "FHDB")
+	version := read8(bf)
+	checkVal(0, version, "heap direct block version must be zero")
+	heapHeaderAddr := read64(bf)
+	checkVal(link.heapAddress, heapHeaderAddr, "heap direct block is not of this heap")
+	if link.hasChecksums {
+		sumOffset := 13 + (link.maxHeapSize+7)/8
+		b := readBytes(h5.newSeek(addr, int64(size)), size)
+		sum := binary.LittleEndian.Uint32(b[sumOffset:])
+		// It was calculated with zeroes where it is now
+		clear(b[sumOffset : sumOffset+4])
+		hash := computeChecksumStream(newResetReaderFromBytes(b), len(b))
+		assert(hash == sum, "checksum mismatch")
+	}
+	link.verified[addr] = true
+}
+
+// readLinkData finds the object with the given ID in the fractal heap and calls the
+// function with its location.
+func (h5 *HDF5) readLinkData(obj *object, link *linkInfo, id remReader,
 	creationOrder uint64, callback doublerCallback) {
-	logger.Infof("offset=0x%x length=%d", offset, length)
-	h5.doDoubling(obj, link, offset, length, creationOrder, callback)
+	versionAndType := read8(id)
+	logger.Infof("versionAndType=%s", binaryToString(uint64(versionAndType)))
+	checkVal(0, versionAndType>>6, "heap ID version")
+	switch idType := (versionAndType >> 4) & 0b11; idType {
+	case 0: // managed
+		offset := readEnc(id, uint8((link.maxHeapSize+7)/8))
+		length := readEnc(id, min(uint8((log2(link.maximumBlockSize)+7)/8),
+			encSize(uint64(link.maxObjectSize))))
+		logger.Infof("offset=0x%x length=%d", offset, length)
+		addr, offset := h5.findBlock(link, offset)
+		callback(obj, addr, offset, length, creationOrder)
+	case 1: // huge
+		var info hugeInfo
+		if link.idLength > 16 {
+			info = hugeInfo{read64(id), read64(id)}
+		} else {
+			if link.hugeObjects == nil {
+				link.hugeObjects = make(map[uint64]hugeInfo)
+				h5.readBTree(link.hugeAddress, func(bf remReader, ty byte) {
+					checkVal(1, ty, "not huge objects")
+					info := hugeInfo{read64(bf), read64(bf)}
+					link.hugeObjects[read64(bf)] = info
+				})
+			}
+			var has bool
+			info, has = link.hugeObjects[readEnc(id, uint8(min(link.idLength-1, 8)))]
+			assertError(has, ErrCorrupted, "huge object not found")
+		}
+		callback(obj, info.addr, 0, info.length, creationOrder)
+	default:
+		fail(fmt.Sprint("don't know how to handle heap ID type ", idType))
+	}
 }
 
 func hasFlag8(flags byte, flag uint) bool {
@@ -791,24 +859,24 @@ func hasFlag8(flags byte, flag uint) bool {
 }
 
 // Assumes it is a link
-func (h5 *HDF5) readLinkDirect(parent *object, addr uint64, offset uint64, length uint16,
+func (h5 *HDF5) readLinkDirect(parent *object, addr uint64, offset uint64, length uint64,
 	creationOrder uint64) {
 	logger.Infof("* addr=0x%x offset=0x%x length=%d", addr, offset, length)
 	bf := h5.newSeek(addr+uint64(offset), int64(length))
 	h5.readLinkDirectFrom(parent, bf, length, creationOrder)
 }
 
-func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16, creationOrder uint64) {
+func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint64, creationOrder uint64) {
 	bf := newResetReader(obf, int64(length))
 	version := read8(bf)
 	logger.Infof("* link version=%d", version)
 	checkVal(1, version, "Link version must be 1")
 	flags := read8(bf)
 	logger.Infof("* link flags=0x%x (%s)", flags, binaryToString(uint64(flags)))
-	linkType := byte(0)
 	if hasFlag8(flags, 3) {
-		linkType = read8(bf)
+		linkType := read8(bf)
 		logger.Info("linkType=", linkType)
+		assertError(linkType == 0, ErrLinkType, "only hard links are supported")
 	}
 	var co uint64
 	if hasFlag8(flags, 2) {
@@ -823,202 +891,164 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 		assert(cSet == 0 || cSet == 1, "only ASCII and UTF-8 names")
 	}
 	size := 1 << (flags & 0b11)
-	b := readEnc(bf, uint8(size))
-	lenlen := uint64(b)
+	lenlen := readEnc(bf, uint8(size))
 	logger.Infof("lenlen=0x%x", lenlen)
+	assertError(lenlen > 0 && lenlen <= uint64(bf.Rem()), ErrCorrupted, "bad link name length")
 	linkName := make([]byte, lenlen)
-	if lenlen > 0 {
-		read(bf, linkName)
-	}
+	read(bf, linkName)
 	hardAddr := read64(bf)
 	if bf.Rem() > 0 {
 		checkZeroes(bf, int(bf.Rem()))
 	}
 	logger.Infof("hard link=0x%x", hardAddr)
-	_, has := parent.children[string(linkName)]
+	h5.readChild(parent, string(linkName), hardAddr, co, false)
+}
+
+// Objects nested deeper than this are refused.
+const maxDepth = 10000
+
+// readChild reads the object at the given address and adds it to the parent.
+func (h5 *HDF5) readChild(parent *object, name string, addr uint64, creationOrder uint64,
+	isGroup bool) {
+	_, has := parent.children[name]
 	assert(!has, "duplicate object")
-	if h5.hasAddr(hardAddr) {
-		logger.Info("avoid link loop")
-		logger.Infof("done with name=%s", string(linkName))
+	if other, has := h5.addrs[addr]; has {
+		if !other.isComplete {
+			// The parent is inside of it
+			logger.Info("avoid link loop")
+			return
+		}
+		// Another name for the same object
+		obj := *other
+		obj.name = name
+		obj.creationOrder = creationOrder
+		parent.children[name] = &obj
 		return
 	}
+	assertError(h5.depth < maxDepth, ErrCorrupted, "nested too deep")
+	h5.depth++
 	obj := newObject()
-	obj.name = string(linkName)
-	parent.children[obj.name] = obj
-	obj.creationOrder = co
-	obj.addr = hardAddr
-	h5.addrs[hardAddr] = true
-	h5.readDataObjectHeader(obj, hardAddr)
-	logger.Info("obj name", obj.name)
+	obj.name = name
+	obj.isGroup = isGroup
+	parent.children[name] = obj
+	obj.creationOrder = creationOrder
+	obj.addr = addr
+	h5.addrs[addr] = obj
+	h5.readDataObjectHeader(obj, addr)
 	logger.Infof("object (0x%x, %s) from parent (0x%x, %s)\n",
 		obj.addr, obj.name, parent.addr, parent.name)
 	h5.dumpObject(obj)
-	logger.Infof("done with name=%s", string(linkName))
-}
-
-func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, recordSize uint16, depth uint16, nodeSize uint32) {
-	nr := uint64(numRec) // should work
-	len := 4 + 2 + nr*uint64(recordSize)
-	sub := 0
-	if depth > 1 {
-		sub = 2
+	h5.depth--
+	logger.Infof("done with name=%s", name)
+}
+
+// btreeHeader has what is the same for all nodes of a (version 2) B-tree
+type btreeHeader struct {
+	ty         byte
+	nodeSize   uint32
+	recordSize uint16
+	maxRec     []uint64 // maximum number of records in a node, by depth
+	totalSize  []uint8  // encoded size of the number of records in it and below, by depth
+	seen       map[uint64]bool
+	callback   btreeCallback
+}
+
+// btreeCallback is called with each record in a B-tree
+type btreeCallback func(bf remReader, ty byte)
+
+func (h5 *HDF5) newBTreeHeader(ty byte, nodeSize uint32, recordSize uint16, depth uint16,
+	callback btreeCallback) *btreeHeader {
+	// 4-byte signature + 1 version + 1 type + 4 checksum = 10 bytes.
+	const overhead = 10
+	assertError(recordSize > 0 && nodeSize >= overhead+uint32(recordSize), ErrCorrupted, "B-tree node size")
+	hdr := &btreeHeader{ty, nodeSize, recordSize, nil, nil, make(map[uint64]bool), callback}
+	total := uint64(0)
+	for d := range int(depth) + 1 {
+		pointerSize := uint64(0)
+		if d > 0 {
+			pointerSize = 8 + uint64(encSize(hdr.maxRec[0]))
+			if d > 1 {
+				pointerSize += uint64(hdr.totalSize[d-1])
+			}
+		}
+		assertError(uint64(nodeSize) > overhead+pointerSize, ErrCorrupted, "B-tree node size")
+		maxRec := (uint64(nodeSize) - overhead - pointerSize) / (uint64(recordSize) + pointerSize)
+		assertError(maxRec > 0 && total < math.MaxUint64/(maxRec+2), ErrCorrupted, "B-tree too deep")
+		total = (maxRec+1)*total + maxRec
+		hdr.maxRec = append(hdr.maxRec, maxRec)
+		hdr.totalSize = append(hdr.totalSize, encSize(total))
+	}
+	return hdr
+}
+
+// readBTreeNodeV2 reads a node and everything below it.
+func (h5 *HDF5) readBTreeNodeV2(hdr *btreeHeader, bta uint64, numRec uint64, depth uint16) {
+	assertError(!hdr.seen[bta], ErrCorrupted, "loop in B-tree")
+	hdr.seen[bta] = true
+	assertError(numRec <= hdr.maxRec[depth], ErrCorrupted, "too many records in B-tree node")
+	magic := "BTLF"
+	size := 4 + 2 + numRec*uint64(hdr.recordSize)
+	countSize := encSize(hdr.maxRec[0])
+	totalSize := uint8(0)
+	if depth > 0 {
+		magic = "BTIN"
+		if depth > 1 {
+			totalSize = hdr.totalSize[depth-1]
+		}
+		size += (numRec + 1) * uint64(8+countSize+totalSize)
 	}
-	bsize := int64(4+2) + int64(nr)*int64(recordSize) + (int64(nr)+1)*int64(8+1+sub)
-	bf := h5.newSeek(bta, bsize)
-	checkMagic(bf, 4, "BTIN")
+	h5.checkChecksum(bta, int(size))
+	bf := h5.newSeek(bta, int64(size))
+	checkMagic(bf, 4, magic)
 	version := read8(bf)
 	checkVal(0, version, "version")
-	logger.Info("btin version=", version)
 	ty := read8(bf)
-	logger.Info("btin type=", ty)
-	logger.Info("btin numrec=", numRec)
-	logger.Info("btin recordSize=", recordSize)
-	logger.Info("nr=", nr)
-	logger.Info("depth = ", depth)
-	logger.Info("count before=", bf.Count())
-	h5.readRecords(parent, bf, nr, ty)
-	logger.Info("count after=", bf.Count())
-
-	for i := uint64(0); i <= nr; i++ {
-		cnp := read64(bf) // child node pointer
-		len += 8
-		logger.Infof("cnp=0x%x", cnp)
-		// Fixed overhead: 4-byte signature + 1 version + 1 type + 4 node size = 10 bytes.
-		// Each child pointer triplet: 8-byte address + 4 numRecords + 4 totalRecords = 16 bytes.
-		fixedSizeOverhead := uint32(10)
-		onePointerTriplet := uint32(16)
-		maxNumberOfRecords := uint64(nodeSize-(fixedSizeOverhead+onePointerTriplet)) / (uint64(recordSize) + uint64(onePointerTriplet))
-		logger.Info("max number of records", maxNumberOfRecords)
-		assert(maxNumberOfRecords < 256, "can't handle this") // TODO: support bigger maxes
-		cnr := read8(bf)                                      // number of records for child node
-		len++
-		logger.Infof("cnr=0x%x", cnr)
-		logger.Info("depth=", depth)
-		if depth == 1 {
-			logger.Info("Descend into leaf")
-			h5.readBTreeLeaf(parent, cnp, uint64(cnr), recordSize)
-		} else {
-			logger.Info("Descend into node")
-			h5.readBTreeInternal(parent, cnp, uint64(cnr), recordSize, depth-1, nodeSize)
-		}
-		if depth > 1 {
-			tnr := read16(bf) // total number of records in child node
-			len += 2
-			logger.Infof("tnr=0x%x", tnr)
-		}
-	}
-	checkVal(int64(len), bsize, "accounting problem")
-	h5.checkChecksum(bta, int(len))
-}
-
-func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
-	logger.Info("ty=", ty)
-	for i := range int(numRec) {
-		logger.Infof("reading record %d of %d", i, numRec)
-		switch ty {
-		case 5: // for indexing the ‘name’ field for links in indexed groups.
-			logger.Info("Name field for links in indexed groups")
-			hash := read32(bf)
-			// heap ID
-			versionAndType := read8(bf)
-			logger.Infof("hash=0x%x versionAndType=%s", hash,
-				binaryToString(uint64(versionAndType)))
-			idType := (versionAndType >> 4) & 0b11
-			checkVal(0, idType, "don't know how to handle non-managed")
-			logger.Info("idtype=", idType)
-			// heap IDs are always 7 bytes here
-			offset := uint64(read32(bf))
-			length := read16(bf)
-			// done reading heap id
-			logger.Infof("offset=0x%x length=%d", offset, length)
-			logger.Info("read link data -- indexed groups")
-			h5.readLinkData(obj, obj.link, offset, length, 0, h5.readLinkDirect)
-		case 6: // creation order for indexed group
-			if parseCreationOrder {
-				logger.Info("Creation order for indexed groups")
-				co := read64(bf)
-				versionAndType := read8(bf)
-				logger.Infof("co=0x%x versionAndType=0x%x", co, versionAndType)
-				idType := (versionAndType >> 4) & 0b11
-				checkVal(0, idType, "don't know how to handle non-managed")
-				// heap IDs are always 8 bytes here
-				offset := uint64(read32(bf))
-				length := read16(bf)
-				// done reading heap id
-				logger.Infof("offset=0x%x length=%d", offset, length)
-				h5.readLinkData(obj, obj.link, offset, length, co, h5.readLinkDirect)
-			} else {
-				logger.Fatal("creation order code has never been executed before")
-			}
-
-		case 8: // for indexing the ‘name’ field for indexed attributes.
-			logger.Info("Name field for indexed attributes")
-			versionAndType := read8(bf)
-			logger.Infof("versionAndType=%s", binaryToString(uint64(versionAndType)))
-			idType := (versionAndType >> 4) & 0b11
-			logger.Info("idtype=", idType)
-			checkVal(0, idType, "don't know how to handle non-managed")
-			// heap IDs are always 8 bytes here
-			offset := uint64(read32(bf))
-			logger.Infof("offset=0x%x", offset)
-			more := read8(bf)
-			logger.Infof("more=0x%x", more)
-			offset = offset | uint64(more)<<32
-			length := read16(bf)
-			// done reading heap id
-			flags := read8(bf)
-			co := read32(bf)
-			hash := read32(bf)
-			logger.Infof("flags=%s co=0x%x hash=0x%x",
-				binaryToString(uint64(flags)), co, hash)
-			logger.Info("read link data -- indexed attributes")
-			h5.readLinkData(obj, obj.attr, offset, length, uint64(co), h5.readAttributeDirect)
-
-		case 9:
-			// uncomment the following to enable
-			if parseCreationOrder {
-				logger.Info("Creation order for indexed attributes")
-				// byte 1 of heap id
-				versionAndType := read8(bf)
-				logger.Infof("versionAndType=%s", binaryToString(uint64(versionAndType)))
-				idType := (versionAndType >> 4) & 0b11
-				logger.Info("idtype=", idType)
-				checkVal(0, idType, "don't know how to handle non-managed")
-				// heap IDs are always 8 bytes here
-				// bytes 2,3,4,5 of heap id
-				offset := uint64(read32(bf))
-				// byte 6 of heap ID
-				more := read8(bf)
-				offset = offset | uint64(more)<<32
-				// bytes 7 and 8 and heap ID
-				length := read16(bf)
-				// done reading heap id
-				mflags := read8(bf)
-				co := read32(bf)
-				logger.Infof("type 9 vat=0x%x offset=0x%x length=%d mflags=0x%x, co=%d",
-					versionAndType,
-					offset, length, mflags, co)
-				h5.readLinkData(obj, obj.attr, offset, length, 0, h5.readAttributeDirect)
-			} else {
-				logger.Fatal("creation order code has never been executed before")
-			}
-		default:
-			fail(fmt.Sprintf("unhandled type: %d", ty))
+	logger.Info("B-tree node type=", ty, "depth=", depth, "numRec=", numRec)
+	checkVal(hdr.ty, ty, "B-tree type")
+	for range int(numRec) {
+		b := readBytes(bf, uint64(hdr.recordSize))
+		hdr.callback(newResetReaderFromBytes(b), ty)
+	}
+	if depth == 0 {
+		return
+	}
+	for range int(numRec) + 1 {
+		cnp := read64(bf)             // child node pointer
+		cnr := readEnc(bf, countSize) // number of records for child node
+		if totalSize > 0 {
+			readEnc(bf, totalSize) // total number of records in child node
 		}
+		logger.Infof("cnp=0x%x cnr=%d", cnp, cnr)
+		h5.readBTreeNodeV2(hdr, cnp, cnr, depth-1)
 	}
 }
 
-func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordSize uint16) {
-	nbytes := 4 + 2 + int(numRec)*int(recordSize)
-	bf := h5.newSeek(bta, int64(nbytes))
-	checkMagic(bf, 4, "BTLF")
-	version := read8(bf)
-	logger.Info("btlf version=", version)
-	ty := read8(bf)
-	logger.Info("bt type=", ty)
-	h5.readRecords(parent, bf, numRec, ty)
-	logger.Infof("leaf node size=%d", nbytes)
-	h5.checkChecksum(bta, nbytes)
+// readRecord reads a record of the B-tree for the names of links or attributes.
+func (h5 *HDF5) readRecord(obj *object, bf remReader, ty byte) {
+	switch ty {
+	case 5: // for indexing the ‘name’ field for links in indexed groups.
+		logger.Info("Name field for links in indexed groups")
+		assertError(obj.link != nil, ErrCorrupted, "no heap for links")
+		hash := read32(bf)
+		logger.Infof("hash=0x%x", hash)
+		id := newResetReader(bf, int64(obj.link.idLength))
+		h5.readLinkData(obj, obj.link, id, 0, h5.readLinkDirect)
+
+	case 8: // for indexing the ‘name’ field for indexed attributes.
+		logger.Info("Name field for indexed attributes")
+		assertError(obj.attr != nil, ErrCorrupted, "no heap for attributes")
+		idBytes := readBytes(bf, uint64(obj.attr.idLength))
+		flags := read8(bf)
+		co := read32(bf)
+		hash := read32(bf)
+		logger.Infof("flags=%s co=0x%x hash=0x%x",
+			binaryToString(uint64(flags)), co, hash)
+		assertError(!hasFlag8(flags, 1), ErrUnsupportedDataTypeVersion, "shared attributes not supported")
+		h5.readLinkData(obj, obj.attr, newResetReaderFromBytes(idBytes), uint64(co), h5.readAttributeDirect)
+
+	default:
+		fail(fmt.Sprintf("unhandled type: %d", ty))
+	}
 }
 
 func calculateFlatOffsetFromKeys(offsets []uint64, dimensions []uint64, dtSize uint64) uint64 {
@@ -1125,70 +1155,31 @@ func log2(v uint64) int {
 	return r
 }
 
-func (h5 *HDF5) readRootBlock(link *linkInfo, bta uint64, nrows uint16) {
-	width := link.tableWidth
-	startBlockSize := link.blockSize
-	maxBlockSize := link.maximumBlockSize
+// readIndirectBlock returns the addresses in an indirect block of a fractal heap
+func (h5 *HDF5) readIndirectBlock(link *linkInfo, bta uint64, nrows int) []uint64 {
+	if addrs, has := link.indirect[bta]; has {
+		assertError(len(addrs) == nrows*int(link.tableWidth), ErrCorrupted, "loop in heap")
+		return addrs
+	}
+	n := nrows * int(link.tableWidth)
+	offsetSize := (link.maxHeapSize + 7) / 8
 	// bytes in block
 	// signature=4 version=1 heapaddr=8 blockoffset=(calc) + variables=(calc) + checksum
-	bSize := 4 + 1 + 8 + int64(link.maxHeapSize/8) + int64(nrows*width*8) + 4
+	bSize := 4 + 1 + 8 + int64(offsetSize) + int64(n)*8 + 4
 	bf := h5.newSeek(bta, bSize)
+	h5.checkChecksum(bta, int(bSize)-4)
 	checkMagic(bf, 4, "FHIB")
 	version := read8(bf)
 	logger.Info("heap root block version=", version)
 	checkVal(0, version, "heap root block version must be zero")
 	heapHeaderAddr := read64(bf)
 	logger.Infof("heap header addr=0x%x", heapHeaderAddr)
-	blockOffset := uint64(read32(bf))
+	blockOffset := readEnc(bf, uint8(offsetSize))
 	logger.Infof("block offset=0x%x", blockOffset)
-	logger.Info("max heap size", link.maxHeapSize)
-	if link.maxHeapSize == 40 {
-		logger.Info("1 more byte")
-		more := read8(bf)
-		blockOffset = blockOffset | (uint64(more) << 32)
-		logger.Infof("new block offset=0x%x", blockOffset)
-	}
-	logger.Info("rows width=", nrows, width)
-	maxRowsDirect := log2(maxBlockSize) - log2(startBlockSize) + 2
-	directRows := maxRowsDirect
-	indirectRows := 0
-	if nrows < uint16(maxRowsDirect) {
-		directRows = int(nrows)
-	} else {
-		indirectRows = int(nrows) - maxRowsDirect
-	}
-	logger.Infof("maxrowsdirect=%d directRows=%d indirectRows=%d",
-		maxRowsDirect, directRows, indirectRows)
-
-	addrs := make([]uint64, 0, directRows*int(width))
-	iAddrs := make([]uint64, 0, indirectRows*int(width))
-	blockSize := startBlockSize
-	for i := range int(nrows) {
-		if i > 1 {
-			if i < maxRowsDirect {
-				if blockSize < maxBlockSize {
-					blockSize *= 2
-					logger.Info("doubled block size (direct)", blockSize, "->", blockSize*2)
-				}
-			} else if i >= maxRowsDirect {
-				blockSize *= 2
-				logger.Info("doubled block size (indirect)", blockSize, "->", blockSize*2)
-			}
-		}
-		for range int(width) {
-			childDirectBlockAddress := read64(bf)
-			logger.Infof("child block address=0x%x row=%d maxrows=%d", childDirectBlockAddress,
-				i, maxRowsDirect)
-			if i < maxRowsDirect {
-				addrs = append(addrs, childDirectBlockAddress)
-			} else {
-				iAddrs = append(iAddrs, childDirectBlockAddress)
-			}
-		}
-	}
-	link.block = addrs   // direct blocks
-	link.iBlock = iAddrs // indirect blocks
-	h5.checkChecksum(bta, int(bSize)-4)
+	addrs := make([]uint64, n)
+	read(bf, addrs)
+	link.indirect[bta] = addrs
+	return addrs
 }
 
 func checkVal(expected, actual any, comment string) {
@@ -1302,15 +1293,19 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	checkVal(0, filterLen, "filterlen must be zero")
 	flags := read8(bf)
 	logger.Infof("flags=%s", binaryToString(uint64(flags)))
-	if !hasFlag8(flags, 1) {
+	link.hasChecksums = hasFlag8(flags, 1)
+	if !link.hasChecksums {
 		logger.Warn("not using checksums")
 	}
 	maxSizeObjects := read32(bf)
 	logger.Infof("maxSizeManagedObjects=%d", maxSizeObjects)
+	link.maxObjectSize = maxSizeObjects
+	link.idLength = heapIDLen
 	nextHuge := read64(bf)
 	logger.Infof("nextHuge=0x%x", nextHuge)
 	btAddr := read64(bf)
 	logger.Infof("btree address=0x%x", btAddr)
+	link.hugeAddress = btAddr
 	amountFree := read64(bf)
 	logger.Infof("amount free=%d", amountFree)
 	freeSpaceAddr := read64(bf)
@@ -1343,7 +1338,12 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	link.maximumBlockSize = maximumBlockSize
 	maximumHeapSize := read16(bf)
 	logger.Infof("maximum heap size=%d", maximumHeapSize)
-	assert(maximumHeapSize == 32 || maximumHeapSize == 40, "unhandled heap size")
+	assert(maximumHeapSize >= 8 && maximumHeapSize <= 64, "unhandled heap size")
+	isPowerOf2 := func(v uint64) bool { return bits.OnesCount64(v) == 1 }
+	// The starting size must have room for the header of the block
+	assertError(isPowerOf2(startingBlockSize) && isPowerOf2(maximumBlockSize) &&
+		startingBlockSize >= 32 && startingBlockSize <= maximumBlockSize && maximumBlockSize <= math.MaxUint32,
+		ErrCorrupted, "heap block sizes")
 	link.maxHeapSize = int(maximumHeapSize)
 	startingNumberRows := read16(bf)
 	logger.Infof("starting number rows=%d", startingNumberRows)
@@ -1352,15 +1352,13 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	rowsRootIndirect := read16(bf)
 	logger.Infof("rows in root indirect block=%d", rowsRootIndirect)
 	h5.checkChecksum(link.heapAddress, 142)
-	if rowsRootIndirect > 0 {
-		logger.Info("Reading indirect heap block")
-		h5.readRootBlock(link, rootBlockAddress, rowsRootIndirect)
-	} else {
-		logger.Info("Adding direct heap block")
-		assert(link.block == nil, "don't overwrite direct heap block")
-		link.block = make([]uint64, 1)
-		link.block[0] = rootBlockAddress
-	}
+	link.rootAddress = rootBlockAddress
+	link.rootRows = rowsRootIndirect
+	// more rows than this would be more than 64 bits
+	maxRows := 64 - log2(startingBlockSize*uint64(tableWidth)) + 1
+	assertError(int(rowsRootIndirect) <= maxRows, ErrCorrupted, "too many rows in heap")
+	link.indirect = make(map[uint64][]uint64)
+	link.verified = make(map[uint64]bool)
 }
 
 func (h5 *HDF5) readLocalHeap(addr uint64, offset uint64) string {
@@ -1373,7 +1371,8 @@ func (h5 *HDF5) readLocalHeap(addr uint64, offset uint64) string {
 	flOffset := read64(bf)
 	dsAddr := read64(bf)
 	logger.Infof("dsSize=%d flOffset=0x%x dsAddr=0x%x", dsSize, flOffset, dsAddr)
-	bff := h5.newSeek(dsAddr+offset, int64(dsSize)-int64(offset))
+	assertError(offset < dsSize && dsAddr <= uint64(h5.fileSize), ErrCorrupted, "not in the local heap")
+	bff := h5.newSeek(dsAddr+offset, int64(dsSize-offset))
 	return readNullTerminatedName(bff, 0)
 }
 
@@ -1388,6 +1387,9 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 
 	thisSize := int64(numSymbols) * 40
 	logger.Info("number of symbols", numSymbols, "thisSize=", thisSize)
+	if numSymbols == 0 {
+		return
+	}
 	bf = h5.newSeek(addr+uint64(bf.Count()), thisSize)
 	for i := range int(numSymbols) {
 		logger.Info("Start: count=", bf.Count(), "rem=", bf.Rem())
@@ -1422,31 +1424,20 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 			logger.Info("Symbolic link offset", offset)
 			thrower.Throw(ErrLinkType)
 		}
-		_, has := parent.children[linkName]
-		assert(!has, "duplicate object")
-		if h5.hasAddr(objectHeaderAddress) {
-			logger.Info("avoid link loop")
-			logger.Infof("done with name=%s", string(linkName))
-			return
-		}
-		obj := newObject()
-		obj.addr = objectHeaderAddress
-		h5.addrs[objectHeaderAddress] = true
-
-		obj.name = linkName
-		logger.Infof("object (0x%x, %s) from symbol table, parent (0x%x, %s)\n",
-			obj.addr, obj.name, parent.addr, parent.name)
-		parent.children[obj.name] = obj
-		obj.isGroup = true
-		h5.readDataObjectHeader(obj, objectHeaderAddress)
-		logger.Info("STE rem=", bf.Rem())
-		h5.dumpObject(obj)
-		logger.Infof("done with name=%s", obj.name)
+		h5.readChild(parent, linkName, objectHeaderAddress, 0, true)
 	}
 }
 
 func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
-	bf := h5.newSeek(addr, 52) // adjust later
+	h5.readSymbolTableNode(parent, addr, heapAddr, -1, make(map[uint64]bool))
+}
+
+// readSymbolTableNode reads a node which must be at the given level, unless it is negative.
+func (h5 *HDF5) readSymbolTableNode(parent *object, addr uint64, heapAddr uint64, level int,
+	seen map[uint64]bool) {
+	assertError(!seen[addr], ErrCorrupted, "loop in B-tree")
+	seen[addr] = true
+	bf := h5.newSeek(addr, 24) // adjust later
 
 	checkMagic(bf, 4, "TREE") // "SNOD"
 	nodeType := read8(bf)
@@ -1456,32 +1447,33 @@ func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
 	rightAddress := read64(bf)
 	logger.Infof("type=%v level=%v entries=%v left=0x%x right=0x%x",
 		nodeType, nodeLevel, entriesUsed, leftAddress, rightAddress)
-	if nodeLevel > 0 {
-		logger.Infof("Start level %d", nodeLevel)
+	if level < 0 {
+		assert(leftAddress == invalidAddress && rightAddress == invalidAddress,
+			"Siblings unexpected")
+	} else {
+		checkVal(level, nodeLevel, "B-tree level")
 	}
-	assert(leftAddress == invalidAddress && rightAddress == invalidAddress,
-		"Siblings unexpected")
 	assert(nodeType == 0, "what we expect")
-	type keyAddr struct {
-		key  uint64
-		addr uint64
-	}
-	keyAddrs := []keyAddr{}
 	bf = h5.newSeek(addr+uint64(bf.Count()), 16*int64(entriesUsed)+8)
-	for i := uint16(0); i < entriesUsed; i++ {
+	childAddrs := make([]uint64, entriesUsed)
+	for i := range childAddrs {
 		key := read64(bf)
-		childAddr := read64(bf)
-		logger.Infof("%d: key=%d addr=0x%x", i, key, addr)
-		keyAddrs = append(keyAddrs, keyAddr{key, childAddr})
+		childAddrs[i] = read64(bf)
+		logger.Infof("%d: key=%d addr=0x%x", i, key, childAddrs[i])
 	}
 	lastKey := read64(bf)
 	logger.Infof("last key=%d", lastKey)
-	for _, v := range keyAddrs {
-		h5.readSymbolTableLeaf(parent, v.addr, heapAddr)
+	for _, childAddr := range childAddrs {
+		if nodeLevel > 0 {
+			h5.readSymbolTableNode(parent, childAddr, heapAddr, int(nodeLevel)-1, seen)
+		} else {
+			h5.readSymbolTableLeaf(parent, childAddr, heapAddr)
+		}
 	}
 }
 
-func (h5 *HDF5) readBTree(parent *object, addr uint64) {
+// readBTree calls the function with each record in a (version 2) B-tree.
+func (h5 *HDF5) readBTree(addr uint64, callback btreeCallback) {
 	bf := h5.newSeek(addr, 36)
 	checkMagic(bf, 4, "BTHD")
 	version := read8(bf)
@@ -1507,12 +1499,11 @@ func (h5 *HDF5) readBTree(parent *object, addr uint64) {
 	logger.Info("numRec=", numRec)
 
 	h5.checkChecksum(addr, 34)
-	// TODO: indirect blocks for leaf
-	if depth > 0 {
-		h5.readBTreeInternal(parent, rootNodeAddress, uint64(numRecRootNode), recordSize, depth, nodeSize)
-	} else {
-		h5.readBTreeLeaf(parent, rootNodeAddress, uint64(numRec), recordSize)
+	if numRecRootNode == 0 {
+		return
 	}
+	hdr := h5.newBTreeHeader(ty, nodeSize, recordSize, depth, callback)
+	h5.readBTreeNodeV2(hdr, rootNodeAddress, uint64(numRecRootNode), depth)
 }
 
 func (h5 *HDF5) readLinkInfo(bf io.Reader) *linkInfo {
@@ -1543,7 +1534,7 @@ func hexPrint(addr uint64) string {
 func (h5 *HDF5) isMagic(magic string, addr uint64) bool {
 	assert(addr != 0 && addr != invalidAddress,
 		fmt.Sprint("invalid address for checking magic number: ", hexPrint(addr)))
-	if addr+4 > uint64(h5.fileSize) {
+	if addr > uint64(h5.fileSize) || uint64(h5.fileSize)-addr < 4 {
 		logger.Error("seeking past end of file -- probably a truncated file")
 		thrower.Throw(ErrCorrupted)
 		panic("not reached")
@@ -1714,7 +1705,9 @@ func (h5 *HDF5) readFilterPipeline(obj *object, obf io.Reader) {
 			b := make([]byte, nameLength)
 			read(bf, b)
 			logger.Infof("filter name=%s", getString(b))
-			padBytes(bf, 7)
+			if version == 1 {
+				padBytes(bf, 7)
+			}
 		}
 		cdv := make([]uint32, nCDV)
 		for i := range int(nCDV) {
@@ -1945,6 +1938,7 @@ func (h5 *HDF5) readFillValue(bf io.Reader) []byte {
 	}
 	// Read the fill value
 	len := read32(bf)
+	assertError(int64(len) <= bf.(remReader).Rem(), ErrCorrupted, "fill value size")
 	if len == 0 {
 		logger.Infof("zero length fill value")
 		return nil // zero-length, maybe they meant zero
@@ -1969,7 +1963,14 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 	logger.Infof("readCommon origAddr=0x%x", origAddr)
 	bf := newResetReader(obf, int64(chunkSize))
 	logger.Info("top chunksize", chunkSize, "nRead", bf.Count(), "rem", bf.Rem())
-	for bf.Rem() >= 3 {
+	// What comes before each message. Less than that at the end is a gap.
+	prefix := int64(4)
+	if version == 1 {
+		prefix = 8
+	} else if hasFlag8(ohFlags, 2) {
+		prefix = 6
+	}
+	for bf.Rem() >= prefix {
 		co := uint16(0)
 		var headerType uint16
 		if version == 1 {
@@ -1982,15 +1983,6 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		size := read16(bf)
 		logger.Info("size of header message data=", size)
-		if size == 0 && version == 1 {
-			logger.Info("--- zero sized ---")
-			logger.Info("zs chunksize", chunkSize, "nRead", bf.Count(), "rem", bf.Rem())
-			continue
-		}
-		if bf.Count() == int64(chunkSize) {
-			logger.Info("no chunks left for flags")
-			break
-		}
 		nReadSave := bf.Count() // version 1 calculates things differently
 		hFlags := read8(bf)
 		if version == 1 {
@@ -2021,14 +2013,10 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 		}
 
 		if hasFlag8(ohFlags, 2) {
-			if bf.Rem() < 2 {
-				logger.Info("no chunks to read creation order")
-				break
-			}
 			co = read16(bf)
 			logger.Infof("creation order = %d", co)
 		}
-		if size == 0 && version > 1 {
+		if size == 0 {
 			logger.Info("--- zero sized ---")
 			logger.Info("zs2 chunksize", chunkSize, "nRead", bf.Count(), "rem", bf.Rem())
 			continue
@@ -2049,6 +2037,9 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("About to read v=", version)
 		}
 		f := newResetReader(bf, int64(size))
+		if headerType != typeNIL {
+			assertError(!hasFlag8(hFlags, 1), ErrUnsupportedDataTypeVersion, "shared messages not supported")
+		}
 		switch headerType {
 		case typeNIL:
 			skip(f, int64(size))
@@ -2080,8 +2071,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("Fill value old")
 			sz := read32(f)
 			logger.Info("Fill value old size", sz)
-			fv := make([]byte, sz)
-			read(f, fv)
+			fv := readBytes(f, uint64(sz))
 			obj.fillValueOld = fv
 			logger.Infof("Fill value old=0x%x", fv)
 
@@ -2098,7 +2088,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeLink:
 			logger.Info("XXX: Link")
-			h5.readLinkDirectFrom(obj, f, size, 0)
+			h5.readLinkDirectFrom(obj, f, uint64(size), 0)
 
 		case typeExternalDataFiles:
 			logger.Error("We don't handle external data files")
@@ -2229,11 +2219,21 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 	offset := read64(obf)
 	size := read64(obf)
 	logger.Infof("continuation offset=%08x length=%d", offset, size)
+	assertError(!h5.chunks[offset], ErrCorrupted, "loop in object header")
+	h5.chunks[offset] = true
+	if version == 1 && size == 0 {
+		return
+	}
+	assertError(version == 1 || size >= 8, ErrCorrupted, "continuation is too small")
+	assertError(h5.depth < maxDepth, ErrCorrupted, "nested too deep")
+	h5.depth++
+	defer func() { h5.depth-- }()
 	bf := h5.newSeek(offset, int64(size))
 	chunkSize := size
 	start := 0
 	if version > 1 {
 		checkMagic(bf, 4, "OCHK")
+		h5.checkChecksum(offset, int(size)-4)
 		chunkSize = size - 8 // minus magic & checksum
 		start = 4            // skip magic
 	}
@@ -2252,7 +2252,6 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 			}
 			checkZeroes(bf, int(gap))
 		}
-		h5.checkChecksum(offset, int(size)-4)
 	}
 }
 
@@ -2376,6 +2375,9 @@ func (h5 *HDF5) readDataObjectHeaderV2(obj *object, addr uint64) {
 	assert(bf.Rem() == 0, "should use all bytes")
 	bf = h5.newSeek(addr, int64(chunkSize)+bf.Rem())
 
+	// Nothing in it can be relied on if the checksum is wrong
+	h5.checkChecksum(origAddr, int(addr+chunkSize-origAddr))
+
 	// Read fields that object header and continuation blocks have in common
 	logger.Info("size of chunk=", chunkSize)
 	obj.children = make(map[string]*object)
@@ -2385,10 +2387,6 @@ func (h5 *HDF5) readDataObjectHeaderV2(obj *object, addr uint64) {
 	assert(used == int64(chunkSize),
 		fmt.Sprintf("readCommon should read %d bytes, read %d, delta %d",
 			chunkSize, used, int64(chunkSize)-used))
-	addr += chunkSize
-
-	// Finally, compute the checksum
-	h5.checkChecksum(origAddr, int(addr-origAddr))
 	logger.Infof("obj %s at addr 0x%x\n", obj.name, origAddr)
 }
 
@@ -2420,8 +2418,10 @@ func (h5 *HDF5) readDataObjectHeaderV1(obj *object, addr uint64) {
 	obj.children = make(map[string]*object)
 	checkZeroes(bf, 4)
 	count := uint64(bf.Count())
-	bf = h5.newSeek(addr+count, int64(headerSize))
-	h5.readCommon(obj, bf, version, 0, addr+count, uint64(headerSize))
+	if headerSize > 0 {
+		bf = h5.newSeek(addr+count, int64(headerSize))
+		h5.readCommon(obj, bf, 1, 0, addr+count, uint64(headerSize))
+	}
 	logger.Info("done reading chunks")
 }
 
@@ -2454,6 +2454,9 @@ func canonicalizePath(s string) string {
 // The group can start with "/" for absolute names, or relative.
 func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 	defer thrower.RecoverError(&err)
+	if h5.file == nil {
+		return nil, os.ErrClosed
+	}
 	var groupName string
 	group = canonicalizePath(group)
 	toDescend := h5.groupObject
@@ -2510,7 +2513,8 @@ func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 
 func fileSize(file io.ReadSeeker) int64 {
 	fi, err := file.Seek(0, io.SeekEnd)
-	file.Seek(0, io.SeekStart)
+	thrower.ThrowIfError(err)
+	_, err = file.Seek(0, io.SeekStart)
 	thrower.ThrowIfError(err)
 	return fi
 }
@@ -2548,7 +2552,8 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 		rootObject:    nil,
 		groupObject:   nil,
 		registrations: make(map[string]any),
-		addrs:         make(map[uint64]bool),
+		addrs:         make(map[uint64]*object),
+		chunks:        make(map[uint64]bool),
 		heapCache:     &heapCache{collections: make(map[uint64]map[uint32][]byte)},
 		addrToName:    make(map[uint64]string),
 		dimIDToName:   make(map[int64]string),
@@ -2556,10 +2561,13 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 	h5.readSuperblock()
 	assert(h5.rootAddr != invalidAddress, "No root address")
 	h5.rootObject = newObject()
+	h5.addrs[h5.rootAddr] = h5.rootObject
 	h5.readDataObjectHeader(h5.rootObject, h5.rootAddr)
 	h5.groupObject = h5.rootObject
 	h5.groupObject.isGroup = true
 	h5.dumpObject(h5.rootObject)
+	h5.addrs = nil
+	h5.chunks = nil
 	h5.indexObjects(h5.rootObject)
 	// Attributes() can't return errors, so find out about them now.
 	h5.getAttributes(h5.rootObject.attrlist)
@@ -2575,16 +2583,22 @@ func newObject() *object {
 func (h5 *HDF5) dumpObject(obj *object) {
 	if obj.attr != nil && obj.attr.heapAddress != invalidAddress {
 		h5.readHeap(obj.attr)
-		h5.readBTree(obj, obj.attr.btreeAddress)
+		h5.readBTree(obj.attr.btreeAddress, func(bf remReader, ty byte) {
+			h5.readRecord(obj, bf, ty)
+		})
 	}
 	// then groups
 	if obj.link != nil && obj.link.heapAddress != invalidAddress {
 		h5.readHeap(obj.link)
-		h5.readBTree(obj, obj.link.btreeAddress)
+		h5.readBTree(obj.link.btreeAddress, func(bf remReader, ty byte) {
+			h5.readRecord(obj, bf, ty)
+		})
+		obj.link = &linkInfo{} // not needed any more
 	}
 	sort.SliceStable(obj.attrlist, func(i, j int) bool {
 		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
 	})
+	obj.isComplete = true
 }
 
 func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
@@ -2965,10 +2979,6 @@ func (h5 *HDF5) Attributes() api.AttributeMap {
 	return h5.getAttributes(h5.groupObject.attrlist)
 }
 
-func (h5 *HDF5) hasAddr(addr uint64) bool {
-	return h5.addrs[addr]
-}
-
 // objectKind holds the results of scanning an object's NetCDF4 metadata attributes.
 type objectKind struct {
 	hasClass bool // CLASS attribute says it is a dimension scale
@@ -3265,9 +3275,10 @@ func undoScalarAttribute(value any) any {
 // the one from the IDs of the dimensions to their names.
 func (h5 *HDF5) indexObjects(obj *object) {
 	for _, child := range obj.sortChildren() {
-		if _, has := h5.addrToName[child.addr]; !has {
-			h5.addrToName[child.addr] = child.name
+		if _, has := h5.addrToName[child.addr]; has {
+			continue
 		}
+		h5.addrToName[child.addr] = child.name
 		if child.isDimension() {
 			for _, a := range child.attrlist {
 				if a.name != "_Netcdf4Dimid" {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 429be83..458f632 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -260,6 +260,8 @@ func newRefCountedFile(file io.ReadSeeker) *refCountedFile {
 }
 
 func (rcf *refCountedFile) reference() {
+	rcf.lock.Lock()
+	defer rcf.lock.Unlock()
 	rcf.refCount++
 }
 
-- 
2.43.0


From 1057e1874a23f17650da4de4102ce9ca2994515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 15/35] fix: hdf5: types with many members, opaque members,
 empty sequences and other versions, and errors rather than panics for what is
 corrupted or closed

---
 netcdf/hdf5/array.go         |   7 +-
 netcdf/hdf5/assert.go        |  24 +++++
 netcdf/hdf5/compound.go      |  48 +++------
 netcdf/hdf5/enum.go          |  23 ++--
 netcdf/hdf5/floatingPoint.go |   3 +-
 netcdf/hdf5/hdf5.go          | 198 +++++++++++++++--------------------
 netcdf/hdf5/opaque.go        |  14 ++-
 netcdf/hdf5/reference.go     |   3 +-
 netcdf/hdf5/types.go         | 114 +++++++++++++++++++-
 netcdf/hdf5/vlen.go          | 178 +++++++++++--------------------
 netcdf/hdf5/writer_utils.go  |   5 +-
 11 files changed, 322 insertions(+), 295 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index e37621d..46c5114 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -24,8 +24,6 @@ func (arrayManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute
 	}
 	dims := strings.Join(dStr, ",")
 	signature := fmt.Sprintf("%s(%s)", ty, dims)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
-	assert(namedType == "", "arrays are not named types")
 	return signature
 }
 
@@ -39,8 +37,6 @@ func (arrayManagerType) goTypeString(sh sigHelper, typeName string, attr *attrib
 	}
 	dims := strings.Join(dStr, "")
 	signature := fmt.Sprintf("%s%s", dims, ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
-	assert(namedType == "", "arrays are not named types")
 	return signature
 }
 
@@ -89,5 +85,8 @@ func (arrayManagerType) parse(hr heapReader, c caster, attr *attribute, bitField
 	var arrayAttr attribute
 	printDatatype(hr, c, bf, &arrayAttr)
 	arrayAttr.dimensions = dimensions
+	checkSize(dimensions, arrayAttr.length)
+	assertError(calcAttrSize(&arrayAttr) == uint64(attr.length), ErrCorrupted,
+		"array has the wrong size")
 	attr.children = append(attr.children, &arrayAttr)
 }
diff --git a/netcdf/hdf5/assert.go b/netcdf/hdf5/assert.go
index afd528e..20355e2 100644
--- a/netcdf/hdf5/assert.go
+++ b/netcdf/hdf5/assert.go
@@ -5,6 +5,9 @@ package hdf5
 import (
 	"fmt"
 	"io"
+	"reflect"
+	"runtime"
+	"strings"
 
 	"github.com/batchatco/go-thrower"
 )
@@ -57,6 +60,27 @@ func assertError(condition bool, err error, msg string) {
 	failError(err, msg)
 }
 
+// recoverCorrupted turns the run-time errors that inconsistencies in a file can lead to
+// into a returned error. Other panics are passed through.
+func recoverCorrupted(err *error) {
+	r := recover()
+	switch v := r.(type) {
+	case nil:
+		return
+	case runtime.Error, *reflect.ValueError:
+		logger.Error(v)
+		*err = ErrCorrupted
+	case string:
+		if !strings.HasPrefix(v, "reflect") {
+			panic(r)
+		}
+		logger.Error(v)
+		*err = ErrCorrupted
+	default:
+		panic(r)
+	}
+}
+
 // Panics always with message
 func fail(msg string) {
 	failError(ErrInternal, msg)
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 2119289..d98b5f7 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -23,6 +23,9 @@ var (
 )
 
 func (compoundManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+	if namedType := sh.findSignature(attr, origNames); namedType != "" {
+		return namedType
+	}
 	members := make([]string, len(attr.children))
 	for i, cattr := range attr.children {
 		ty := cdlTypeString(cattr.class, sh, name, cattr, origNames)
@@ -30,14 +33,13 @@ func (compoundManagerType) cdlTypeString(sh sigHelper, name string, attr *attrib
 	}
 	interior := strings.Join(members, "")
 	signature := fmt.Sprintf("compound {\n%s}", interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
 func (compoundManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
+	if namedType := sh.findSignature(attr, origNames); namedType != "" {
+		return namedType
+	}
 	members := make([]string, len(attr.children))
 	for i, cattr := range attr.children {
 		ty := goTypeString(cattr.class, sh, typeName, cattr, origNames)
@@ -45,10 +47,6 @@ func (compoundManagerType) goTypeString(sh sigHelper, typeName string, attr *att
 	}
 	interior := strings.Join(members, "\n")
 	signature := fmt.Sprintf("struct {\n%s\n}\n", interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
@@ -68,7 +66,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 	logger.Info("attr.dtversion", attr.dtversion)
 	assert(attr.dtversion >= 1 && attr.dtversion <= maxDTVersion,
 		fmt.Sprintln("compound datatype version", attr.dtversion, "not supported"))
-	nmembers := bitFields & 0b11111111
+	nmembers := bitFields & 0xffff
 	logger.Info("* number of members:", nmembers)
 
 	padding := 7
@@ -121,6 +119,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 				logger.Info("dimension", i, "size", dsize)
 				compoundAttribute.dimensions[i] = uint64(dsize)
 			}
+			assertError(dimensionality <= 4, ErrCorrupted, "too many dimensions")
 			compoundAttribute.dimensions = compoundAttribute.dimensions[:dimensionality]
 		}
 
@@ -128,6 +127,10 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 		printDatatype(hr, c, bf, &compoundAttribute)
 		logger.Infof("%d compound after: len(prop) = %d", i, bf.Rem())
 		logger.Infof("%d compound dtlength", compoundAttribute.length)
+		checkSize(compoundAttribute.dimensions, compoundAttribute.length)
+		assertError(byteOffset <= attr.length &&
+			calcAttrSize(&compoundAttribute) <= uint64(attr.length-byteOffset), ErrCorrupted,
+			"compound has the wrong size")
 		attr.children = append(attr.children, &compoundAttribute)
 	}
 	logger.Info("Compound length is", attr.length)
@@ -141,36 +144,15 @@ func allocCompounds(hr heapReader, cstr caster, bf io.Reader, dimLengths []uint6
 	logger.Info(bf.(remReader).Count(), "Alloc compounds", dimLengths, class,
 		"length=", length,
 		"nchildren=", len(attr.children), "rem=", bf.(remReader).Rem())
-	dtlen := uint64(0)
-	for i := range attr.children {
-		clen := uint64(calcAttrSize(attr.children[i]))
-		dtlen += clen
-	}
 	if len(dimLengths) == 0 {
-		rem := bf.(remReader).Rem()
-		if length > rem {
-			logger.Warn("not enough room", length, rem)
-		} else {
-			rem = length
-		}
-		cbf := newResetReader(bf, rem)
+		// The members can be in any order
+		b := readBytes(bf, uint64(length))
 		varray := make([]compoundField, len(attr.children))
 		for i, c := range attr.children {
-			byteOffset := c.byteOffset
-			clen := uint64(calcAttrSize(c))
-			if int64(byteOffset) > cbf.Count() {
-				skipLen := int64(byteOffset) - cbf.Count()
-				logger.Info("skip to offset", skipLen)
-				skip(cbf, int64(skipLen))
-			}
-			ccbf := newResetReader(cbf, int64(clen))
+			ccbf := newResetReaderFromBytes(b[c.byteOffset:])
 			varray[i].Val = getDataAttr(hr, cstr, ccbf, *c)
 			varray[i].Name = c.name
 		}
-		if cbf.Count() < length {
-			rem := length - cbf.Count()
-			skip(cbf, int64(rem))
-		}
 		if cast != nil {
 			fields := make([]reflect.StructField, len(attr.children))
 			for i := range fields {
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index a337c28..cc0960b 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -22,6 +22,9 @@ var (
 )
 
 func (enumManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
+	if namedType := sh.findSignature(attr, origNames); namedType != "" {
+		return namedType
+	}
 	assert(len(attr.children) == 1, "enum should have one child")
 	enumAttr := attr.children[0]
 	assert(len(enumAttr.children) == 0, "no recursion")
@@ -33,14 +36,13 @@ func (enumManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	}
 	interior := strings.Join(list, ",\n")
 	signature := fmt.Sprintf("%s enum {\n%s\n}", ty, interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
 func (enumManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
+	if namedType := sh.findSignature(attr, origNames); namedType != "" {
+		return namedType
+	}
 	assert(len(attr.children) == 1, "enum should have one child")
 	enumAttr := attr.children[0]
 	assert(len(enumAttr.children) == 0, "no recursion")
@@ -56,10 +58,6 @@ func (enumManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	}
 	interior := strings.Join(list, "\n")
 	signature := fmt.Sprintf("%s\nconst (\n%s\n)\n", ty, interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
@@ -114,7 +112,7 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	var enumAttr attribute
 	printDatatype(hr, c, bf, &enumAttr)
 	logger.Info("blen now", bf.Count())
-	numberOfMembers := bitFields & 0b11111111
+	numberOfMembers := bitFields & 0xffff
 	logger.Info("number of members=", numberOfMembers)
 	names := make([]string, numberOfMembers)
 	padding := 7
@@ -138,12 +136,7 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	default:
 		thrower.Throw(ErrFixedPoint)
 	}
-	switch attr.length {
-	case 1, 2, 4, 8:
-		break
-	default:
-		thrower.Throw(ErrFixedPoint)
-	}
+	assertError(attr.length == enumAttr.length, ErrCorrupted, "enum has the wrong size")
 	values := make([]any, numberOfMembers)
 	enumAttr.enumValues = values
 	for i := uint32(0); i < numberOfMembers; i++ {
diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 643fbfc..36d77b8 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -84,7 +84,8 @@ func (floatingPointManagerType) defaultFillValue(obj *object, _ []byte, undefine
 }
 
 func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
-	assertError(attr.dtversion == 1, ErrFloatingPoint, "Only support version 1 of float")
+	assertError(attr.dtversion <= dtversionPacked, ErrFloatingPoint,
+		"Only support versions 1-3 of float")
 	logger.Info("* floating-point")
 	endian := ((bitFields >> 5) & 0b10) | (bitFields & 0b1)
 	switch endian {
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 4e663db..0901553 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -82,6 +82,8 @@ const (
 	typeReference
 	typeEnumerated
 	typeVariableLength
+	// 10
+	typeArray
 )
 
 // data type names
@@ -370,11 +372,20 @@ func (h5 *HDF5) newValueHeap() *valueHeap {
 
 func (vh *valueHeap) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uint64) {
 	bf, size := vh.h5.readGlobalHeap(heapAddress, index)
-	vh.left -= int64(size)
-	assertError(vh.left >= 0, ErrCorrupted, "too much data in the global heap")
+	vh.use(size)
 	return bf, size
 }
 
+func (vh *valueHeap) charge(count uint64, attr *attribute) {
+	cost := memoryCost(attr)
+	assertError(cost == 0 || count <= math.MaxInt64/cost, ErrCorrupted, "sequence is too long")
+	vh.use(count * cost)
+}
+
+func (vh *valueHeap) use(size uint64) {
+	assertError(size <= uint64(vh.left), ErrCorrupted, "too much data in the global heap")
+	vh.left -= int64(size)
+}
 func (h5 *HDF5) newSeek(addr uint64, size int64) remReader {
 	logger.Infof("Seek to 0x%x", addr)
 	if h5.file == nil {
@@ -726,7 +737,7 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	attr.dimensions = dims
 	logger.Info("sizeRem=", bf.Rem())
 	pf := newResetReaderFromBytes(dtb)
-	printDatatype(h5, h5, pf, attr)
+	printDatatype(h5.newValueHeap(), h5, pf, attr)
 	if !isNull {
 		size := uint64(attr.length)
 		for _, d := range dims {
@@ -1955,7 +1966,7 @@ func (h5 *HDF5) readDatatype(bf io.Reader) *attribute {
 	logger.Info("print datatype with properties from chunk")
 	var objAttr attribute
 	pf := newResetReader(bf, bf.(remReader).Rem())
-	printDatatype(h5, h5, pf, &objAttr)
+	printDatatype(h5.newValueHeap(), h5, pf, &objAttr)
 	return &objAttr
 }
 
@@ -2453,6 +2464,7 @@ func canonicalizePath(s string) string {
 // GetGroup gets the given group or returns an error if not found.
 // The group can start with "/" for absolute names, or relative.
 func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
+	defer recoverCorrupted(&err)
 	defer thrower.RecoverError(&err)
 	if h5.file == nil {
 		return nil, os.ErrClosed
@@ -2522,6 +2534,7 @@ func fileSize(file io.ReadSeeker) int64 {
 // Open is the implementation of the API netcdf.Open.
 // Using netcdf.Open is preferred over using this directly.
 func Open(fname string) (nc api.Group, err error) {
+	defer recoverCorrupted(&err)
 	defer thrower.RecoverError(&err)
 	file, err := os.Open(fname)
 	if err != nil {
@@ -2537,6 +2550,7 @@ func Open(fname string) (nc api.Group, err error) {
 // New is the implementation of the API netcdf.New.
 // Using netcdf.New is preferred over using this directly.
 func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
+	defer recoverCorrupted(&err)
 	defer thrower.RecoverError(&err)
 	fileSize := fileSize(file)
 	if f, ok := file.(*os.File); ok {
@@ -2974,9 +2988,27 @@ loop:
 
 // Attributes returns the global attributes for this group.
 func (h5 *HDF5) Attributes() api.AttributeMap {
-	// entry point, panic can bubble up
-	assert(h5.groupObject != nil, "nil root object")
-	return h5.getAttributes(h5.groupObject.attrlist)
+	attrs, err := h5.tryAttributes()
+	if err != nil {
+		// The file can be read no longer, as there were no errors when it was opened.
+		logger.Error("can't read the attributes: ", err)
+		attrs, _ = util.NewOrderedMap(nil, nil)
+	}
+	return attrs
+}
+
+func (h5 *HDF5) tryAttributes() (attrs api.AttributeMap, err error) {
+	defer recoverCorrupted(&err)
+	defer thrower.RecoverError(&err)
+	return h5.getAttributes(h5.groupObject.attrlist), nil
+}
+
+// typeString returns the type as printed by printer, or an empty string if it isn't
+// supported.
+func (h5 *HDF5) typeString(printer printerType, name string, attr *attribute,
+	origNames map[string]bool) string {
+	defer thrower.RecoverError(nil)
+	return printer(attr.class, h5, name, attr, origNames)
 }
 
 // objectKind holds the results of scanning an object's NetCDF4 metadata attributes.
@@ -3054,7 +3086,7 @@ func (h5 *HDF5) findAttrType(attrlist []*attribute, attrName string,
 			continue
 		}
 		origNames := map[string]bool{}
-		base := printer(attr.class, h5, attrName, attr, origNames)
+		base := h5.typeString(printer, attrName, attr, origNames)
 		nDims := len(attr.dimensions)
 		if attr.class == typeString && attr.length == 1 && nDims > 0 {
 			nDims-- // the last dimension is the string's
@@ -3072,24 +3104,15 @@ func (h5 *HDF5) findType(varName string) string {
 		return ""
 	}
 	origNames := map[string]bool{varName: true}
-	return cdlTypeString(obj.objAttr.class, h5, varName, obj.objAttr, origNames)
+	return h5.typeString(cdlTypeString, varName, obj.objAttr, origNames)
 }
 
 func (h5 *HDF5) getTypeObj(typeName string) (*object, bool) {
 	obj, has := h5.groupObject.children[typeName]
-	if !has {
+	if !has || !obj.isType() {
 		return nil, false
 	}
 	logger.Info("Found type", typeName, "group", h5.groupName, "child=", obj.name)
-	if obj.objAttr.dimensions != nil {
-		logger.Info("this is a variable")
-		return nil, false
-	}
-	if obj.isGroup {
-		logger.Info("this is a group")
-		return nil, false
-	}
-	assert(len(obj.attrlist) == 0, "types don't have attributes")
 	return obj, true
 }
 
@@ -3099,32 +3122,20 @@ func (h5 *HDF5) GetType(typeName string) (string, bool) {
 	if !has {
 		return "", false
 	}
-	origNames := map[string]bool{typeName: true}
-	sig := cdlTypeString(obj.objAttr.class, h5, typeName, obj.objAttr, origNames)
-	return sig, true
+	sig := h5.typeString(cdlTypeString, typeName, obj.objAttr, h5.sameTypes(obj))
+	return sig, sig != ""
 }
 
 // GetGoType gets the Go description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
-	obj, has := h5.groupObject.children[typeName]
+	obj, has := h5.getTypeObj(typeName)
 	if !has {
 		return "", false
 	}
-	logger.Info("Found type", typeName, "group", h5.groupName, "child=", obj.name)
-	if len(obj.attrlist) != 0 {
-		logger.Info("types don't have attributes")
-		return "", false
-	}
-	if obj.objAttr.dimensions != nil {
-		logger.Info("this is a variable")
-		return "", false
-	}
-	if obj.isGroup {
-		logger.Info("this is a group")
+	sig := h5.typeString(goTypeString, typeName, obj.objAttr, h5.sameTypes(obj))
+	if sig == "" {
 		return "", false
 	}
-	origNames := map[string]bool{typeName: true}
-	sig := goTypeString(obj.objAttr.class, h5, typeName, obj.objAttr, origNames)
 	return fmt.Sprintf("type %s %s", typeName, sig), true
 }
 
@@ -3132,14 +3143,9 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 func (h5 *HDF5) ListTypes() []string {
 	var ret []string
 	for _, obj := range h5.groupObject.sortChildren() {
-		if obj.isGroup {
-			continue
-		}
-		if obj.objAttr.dimensions != nil {
-			// this is a variable
-			continue
+		if obj.isType() {
+			ret = append(ret, obj.name)
 		}
-		ret = append(ret, obj.name)
 	}
 	return ret
 }
@@ -3166,31 +3172,34 @@ func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
 	return obj.objAttr.dimensions[0], true
 }
 
-func (h5 *HDF5) findSignature(signature string, name string, origNames map[string]bool, printer printerType) string {
+func (h5 *HDF5) findSignature(attr *attribute, origNames map[string]bool) string {
 	if h5.groupObject == nil {
 		return ""
 	}
-	for varName, obj := range h5.groupObject.children {
-		if obj.isGroup || origNames[varName] {
-			continue
-		}
-		if classifyObject(obj.attrlist).isDimensionScale() {
-			continue
-		}
-		if obj.objAttr.dimensions != nil {
-			// this is a variable
-			continue
-		}
-		origNames[varName] = true
-		sig := printer(obj.objAttr.class, h5, name, obj.objAttr, origNames)
-		origNames[varName] = false
-		if sig != "" && sig == signature {
+	for _, obj := range h5.groupObject.sortChildren() {
+		if obj.isType() && !origNames[obj.name] && sameType(attr, obj.objAttr) {
 			return obj.name
 		}
 	}
 	return ""
 }
 
+// isType returns true for user-defined types
+func (obj *object) isType() bool {
+	return !obj.isGroup && obj.objAttr.dimensions == nil && obj.objAttr.length > 0
+}
+
+// sameTypes returns the names of the types in the group which are the same as the given one.
+func (h5 *HDF5) sameTypes(typeObj *object) map[string]bool {
+	names := map[string]bool{}
+	for name, obj := range h5.groupObject.children {
+		if obj.isType() && sameType(typeObj.objAttr, obj.objAttr) {
+			names[name] = true
+		}
+	}
+	return names
+}
+
 // isHiddenAttr returns true for the attributes that NetCDF-4 uses internally
 func isHiddenAttr(name string) bool {
 	switch name {
@@ -3352,8 +3361,11 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 
 // GetVariable returns the named variable or sets the error if not found.
 func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
-	err = ErrInternal
+	defer recoverCorrupted(&err)
 	defer thrower.RecoverError(&err)
+	if h5.file == nil {
+		return nil, os.ErrClosed
+	}
 	found := h5.findVariable(varName)
 	if found == nil {
 		logger.Infof("variable %s not found", varName)
@@ -3377,7 +3389,11 @@ func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 // smaller slices of a variable, in case the variable is very large and you want to
 // reduce memory usage.
 func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
+	defer recoverCorrupted(&err)
 	defer thrower.RecoverError(&err)
+	if h5.file == nil {
+		return nil, os.ErrClosed
+	}
 	found := h5.findVariable(varName)
 	if found == nil {
 		logger.Warnf("variable %s not found", varName)
@@ -3395,7 +3411,8 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 	default:
 		d = int64(found.objAttr.dimensions[0])
 	}
-	getSlice := func(begin, end int64) (any, error) {
+	getSlice := func(begin, end int64) (slice any, err error) {
+		defer recoverCorrupted(&err)
 		if begin == 0 && end == 1 && fakeEnd {
 			data := h5.getData(found)
 			if data == nil {
@@ -3418,7 +3435,8 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		}
 		return data, nil
 	}
-	getSliceMD := func(begin, end []int64) (any, error) {
+	getSliceMD := func(begin, end []int64) (slice any, err error) {
+		defer recoverCorrupted(&err)
 		if len(begin) != len(found.objAttr.dimensions) || len(end) != len(found.objAttr.dimensions) {
 			return nil, ErrDimensionality
 		}
@@ -3447,6 +3465,10 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		copy(newEnd, end)
 		newEnd[0] = end[0] - begin[0]
 
+		if e, has := partialData.(enumerated); has {
+			e.values, err = internal.SliceMD(e.values, newDims, newBegin, newEnd)
+			return e, err
+		}
 		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
 	}
 	dims := h5.getDimensions(found)
@@ -3501,58 +3523,6 @@ func (h5 *HDF5) ListVariables() []string {
 	return ret
 }
 
-func emptySlice(v any) reflect.Value {
-	top := reflect.ValueOf(v)
-	elemType := top.Type().Elem()
-	slices := 0
-	// count how many slices we need to make
-	for elemType.Kind() == reflect.Slice {
-		elemType = elemType.Elem()
-		slices++
-	}
-	// here's one slice
-	empty := reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
-	// here are the rest
-	for i := 1; i < slices; i++ {
-		empty = reflect.MakeSlice(reflect.SliceOf(empty.Type()), 0, 0)
-	}
-	return empty
-}
-
-func undoInterfaces(v any) reflect.Value {
-	top := reflect.ValueOf(v)
-	if top.Kind() != reflect.Slice {
-		return top
-	}
-	// Don't recurse into named slice types (e.g. compound, opaque).
-	// These are intentionally distinct from their underlying types
-	// and should not be decomposed.
-	if top.Type().Name() != "" {
-		return top
-	}
-	length := reflect.ValueOf(v).Len()
-	if length == 0 {
-		return emptySlice(v)
-	}
-	underlying := undoInterfaces(top.Index(0).Interface())
-	val := reflect.MakeSlice(reflect.SliceOf(underlying.Type()), length, length)
-	val.Index(0).Set(underlying)
-	for i := 1; i < val.Len(); i++ {
-		underlying = undoInterfaces(top.Index(i).Interface())
-		if !underlying.Type().AssignableTo(val.Type().Elem()) {
-			return top
-		}
-		val.Index(i).Set(underlying)
-	}
-	return val
-}
-
-func convert(v any) any {
-	val := undoInterfaces(v)
-	assert(val.IsValid(), "invalid conversion")
-	return val.Interface()
-}
-
 func (h5 *HDF5) register(typeName string, proto any) {
 	if _, has := h5.GetType(typeName); !has {
 		logger.Warn("no such type", typeName)
diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 647e905..82a898c 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -16,20 +16,18 @@ var (
 )
 
 func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
-	signature := fmt.Sprintf("opaque(%d)", attr.length)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
-	if namedType != "" {
+	if namedType := sh.findSignature(attr, origNames); namedType != "" {
 		return namedType
 	}
+	signature := fmt.Sprintf("opaque(%d)", attr.length)
 	return signature
 }
 
 func (opaqueManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
-	signature := fmt.Sprintf("[%d]uint8", attr.length)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
-	if namedType != "" {
+	if namedType := sh.findSignature(attr, origNames); namedType != "" {
 		return namedType
 	}
+	signature := fmt.Sprintf("[%d]uint8", attr.length)
 	return signature
 }
 
@@ -44,11 +42,11 @@ func (opaqueManagerType) defaultFillValue(obj *object, objFillValue []byte, unde
 }
 
 func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
-	if bf.Rem() == 0 {
+	plen := int(bitFields & 0xff)
+	if plen == 0 {
 		logger.Info("No properties for opaque")
 		return
 	}
-	plen := int(bf.Rem())
 	tag := make([]byte, plen)
 	// The tag is a user-defined ASCII string describing the opaque data (per the HDF5 spec).
 	read(bf, tag)
diff --git a/netcdf/hdf5/reference.go b/netcdf/hdf5/reference.go
index f758e7f..e44ccaa 100644
--- a/netcdf/hdf5/reference.go
+++ b/netcdf/hdf5/reference.go
@@ -38,7 +38,8 @@ func (referenceManagerType) defaultFillValue(obj *object, objFillValue []byte, u
 
 func (referenceManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader) {
 	logger.Info("* reference")
-	assertError(attr.dtversion == 1, ErrUnsupportedReferenceVersion, "Only support version 1 of reference")
+	assertError(attr.dtversion <= dtversionPacked, ErrUnsupportedReferenceVersion,
+		"Only support versions 1-3 of reference")
 	rType := bitFields & 0b1111
 	switch rType {
 	case 0:
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index 6d97576..5e0b523 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"slices"
 	"sync"
 
 	"github.com/batchatco/go-thrower"
@@ -20,6 +21,8 @@ type typeManager interface {
 
 type heapReader interface {
 	readGlobalHeap(heapAddress uint64, index uint32) (remReader, uint64)
+	// charge accounts for the memory used by count values of the type
+	charge(count uint64, attr *attribute)
 }
 
 type caster interface {
@@ -27,8 +30,8 @@ type caster interface {
 }
 
 type sigHelper interface {
-	findSignature(signature string, name string, origNames map[string]bool,
-		printer printerType) string
+	// findSignature returns the name of the type in the group, or an empty string
+	findSignature(attr *attribute, origNames map[string]bool) string
 }
 
 type printerType func(class uint8, helper sigHelper, name string, attr *attribute,
@@ -112,6 +115,111 @@ func goTypeString(class uint8, sh sigHelper, name string, attr *attribute, origN
 	return getDispatch(class).goTypeString(sh, name, attr, origNames)
 }
 
+// sameType returns true if the types are the same to the user, who doesn't know how they are
+// laid out in the file.
+func sameType(a, b *attribute) bool {
+	if a.class != b.class || len(a.children) != len(b.children) {
+		return false
+	}
+	switch a.class {
+	case typeFixedPoint:
+		if a.signed != b.signed || a.length != b.length {
+			return false
+		}
+	case typeFloatingPoint, typeOpaque:
+		if a.length != b.length {
+			return false
+		}
+	case typeVariableLength:
+		if a.vtType != b.vtType {
+			return false
+		}
+	}
+	for i, c := range a.children {
+		d := b.children[i]
+		if a.class == typeCompound && c.name != d.name ||
+			!slices.Equal(c.dimensions, d.dimensions) ||
+			!slices.Equal(c.enumNames, d.enumNames) ||
+			!slices.Equal(c.enumValues, d.enumValues) ||
+			!sameType(c, d) {
+			return false
+		}
+	}
+	return true
+}
+
+// goType returns the Go type of the values of an array of the given type.
+func goType(c caster, attr *attribute, nDims int) reflect.Type {
+	var ty reflect.Type
+	switch attr.class {
+	case typeArray:
+		// the dimensions of the array are in addition to the others
+		child := attr.children[0]
+		return goType(c, child, nDims+len(child.dimensions))
+	case typeFixedPoint:
+		ty = intType(attr)
+	case typeFloatingPoint:
+		ty = reflect.TypeOf(float64(0))
+		if attr.length == 4 {
+			ty = reflect.TypeOf(float32(0))
+		}
+	case typeString:
+		ty = reflect.TypeOf("")
+		if attr.length == 1 && nDims > 0 {
+			nDims-- // the last dimension is the string's
+		}
+	case typeOpaque:
+		if ty = c.cast(*attr); ty == nil {
+			ty = reflect.TypeOf(opaque{})
+		}
+	case typeCompound:
+		if ty = c.cast(*attr); ty == nil {
+			ty = reflect.TypeOf(compound{})
+		}
+	case typeReference:
+		ty = reflect.TypeOf(uint64(0))
+	case typeEnumerated:
+		if ty = c.cast(*attr.children[0]); ty == nil {
+			return reflect.TypeOf(enumerated{}) // which has an array inside
+		}
+	case typeVariableLength:
+		if attr.vtType == 1 {
+			ty = reflect.TypeOf("")
+		} else if ty = c.cast(*attr); ty == nil {
+			ty = reflect.SliceOf(goType(c, attr.children[0], 0))
+		}
+	default:
+		thrower.Throw(ErrUnsupportedType)
+	}
+	for range nDims {
+		ty = reflect.SliceOf(ty)
+	}
+	return ty
+}
+
+func intType(attr *attribute) reflect.Type {
+	if attr.signed {
+		switch attr.length {
+		case 1:
+			return reflect.TypeOf(int8(0))
+		case 2:
+			return reflect.TypeOf(int16(0))
+		case 4:
+			return reflect.TypeOf(int32(0))
+		}
+		return reflect.TypeOf(int64(0))
+	}
+	switch attr.length {
+	case 1:
+		return reflect.TypeOf(uint8(0))
+	case 2:
+		return reflect.TypeOf(uint16(0))
+	case 4:
+		return reflect.TypeOf(uint32(0))
+	}
+	return reflect.TypeOf(uint64(0))
+}
+
 func printDatatype(hr heapReader, c caster, bf remReader, attr *attribute) {
 	assert(bf.Rem() >= 8, "short data")
 	b0 := read8(bf)
@@ -122,6 +230,8 @@ func printDatatype(hr heapReader, c caster, bf remReader, attr *attribute) {
 	dtversion := (b0 >> 4) & 0b1111
 	dtclass := b0 & 0b1111
 	dtlength := read32(bf)
+	assertError(int(dtclass) < len(typeNames), ErrUnsupportedType,
+		fmt.Sprint("unknown class: ", dtclass))
 	logger.Infof("* length=%d dtlength=%d dtversion=%d class=%s flags=%s",
 		bf.Rem(), dtlength,
 		dtversion, typeNames[dtclass], binaryToString(uint64(bitFields)))
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index 10efc66..07027d2 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -20,14 +20,13 @@ func (vlenManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 		// It's a string
 		return "string"
 	}
+	if namedType := sh.findSignature(attr, origNames); namedType != "" {
+		return namedType
+	}
 	vAttr := attr.children[0]
 	ty := cdlTypeString(vAttr.class, sh, name, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("%s(*)", ty)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
@@ -36,14 +35,13 @@ func (vlenManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 		// It's a string
 		return "string"
 	}
+	if namedType := sh.findSignature(attr, origNames); namedType != "" {
+		return namedType
+	}
 	vAttr := attr.children[0]
 	ty := goTypeString(vAttr.class, sh, typeName, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("[]%s", ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
-	if namedType != "" {
-		return namedType
-	}
 	return signature
 }
 
@@ -55,7 +53,7 @@ func (vlenManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	vtPad := uint8(bitFields>>4) & 0b1111
 	// The value of pad here may not have anything to do with reading data, just
 	// writing.  So we could accept all of them
-	assert(vtPad == 0 || vtPad == 1, "only do v0 and v1 versions of VL padding")
+	assert(vtPad <= 2, "unknown padding of variable-length type")
 	vtCset := (bitFields >> 8) & 0b1111
 	logger.Infof("type=%d paddingtype=%d cset=%d", vtType, vtPad, vtCset)
 	switch vtType {
@@ -71,6 +69,7 @@ func (vlenManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	default:
 		fail("unknown variable-length type")
 	}
+	assertError(attr.length == 16, ErrCorrupted, "variable-length type has the wrong size")
 	var variableAttr attribute
 	printDatatype(hr, c, bf, &variableAttr)
 	logger.Info("variable class", variableAttr.class, "vtType", vtType)
@@ -94,57 +93,25 @@ func (vlenManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attrib
 	logger.Info("variable-length type", typeNames[int(attr.children[0].class)])
 	logger.Info("dimensions=", dimensions, "rem=", bf.(remReader).Rem())
 	cast := c.cast(*attr)
-	values := allocVariable(hr, c, bf, dimensions, *attr.children[0], cast)
-	logger.Infof("vl kind %T", values)
-	if cast != nil {
-		return values
+	ty := cast
+	if ty == nil {
+		ty = goType(c, attr, 0)
 	}
-	return convert(values)
+	values := allocVariable(hr, c, bf, dimensions, attr.children[0], ty)
+	logger.Infof("vl kind %T", values)
+	return values.Interface()
 }
 
 func allocStrings(hr heapReader, bf io.Reader, dimLengths []uint64) any {
 	logger.Info("allocStrings", dimLengths)
 	if len(dimLengths) == 0 {
-		// alloc one scalar
-		var length uint32
-		var addr uint64
-		var index uint32
-
-		util.MustReadLE(bf, &length)
-		util.MustReadLE(bf, &addr)
-		util.MustReadLE(bf, &index)
-		logger.Infof("String length %d (0x%x), addr 0x%x, index %d (0x%x)",
-			length, length, addr, index, index)
-		if length == 0 {
-			return ""
-		}
-		bff, sz := hr.readGlobalHeap(addr, index)
-		s := make([]byte, sz)
-		read(bff, s)
-		logger.Info("string=", string(s))
-		return getString(s)
+		return allocString(hr, bf)
 	}
 	thisDim := dimLengths[0]
 	if len(dimLengths) == 1 {
 		values := make([]string, thisDim)
-		for i := range thisDim {
-			var length uint32
-			var addr uint64
-			var index uint32
-
-			util.MustReadLE(bf, &length)
-			util.MustReadLE(bf, &addr)
-			util.MustReadLE(bf, &index)
-			logger.Infof("String length %d (0x%x), addr 0x%x, index %d (0x%x)",
-				length, length, addr, index, index)
-			if length == 0 {
-				values[i] = ""
-				continue
-			}
-			bff, sz := hr.readGlobalHeap(addr, index)
-			s := make([]byte, sz)
-			read(bff, s)
-			values[i] = getString(s)
+		for i := range values {
+			values[i] = allocString(hr, bf)
 		}
 		return values
 	}
@@ -156,78 +123,57 @@ func allocStrings(hr heapReader, bf io.Reader, dimLengths []uint64) any {
 	return vals.Interface()
 }
 
-func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, attr attribute,
-	cast reflect.Type) any {
+// allocString reads one string
+func allocString(hr heapReader, bf io.Reader) string {
+	length, data := readSequence(hr, bf)
+	if length == 0 {
+		return ""
+	}
+	return getString(readBytes(data, uint64(length)))
+}
+
+// readSequence reads the number of elements of a sequence, and returns the data if there
+// are any.
+func readSequence(hr heapReader, bf io.Reader) (uint32, remReader) {
+	var length uint32
+	var addr uint64
+	var index uint32
+	util.MustReadLE(bf, &length)
+	util.MustReadLE(bf, &addr)
+	util.MustReadLE(bf, &index)
+	logger.Infof("Sequence length %d (0x%x), addr 0x%x, index %d (0x%x)",
+		length, length, addr, index, index)
+	if length == 0 {
+		return 0, nil
+	}
+	data, _ := hr.readGlobalHeap(addr, index)
+	return length, data
+}
+
+// allocVariable reads an array of sequences of values of type attr. The Go type of each
+// sequence is ty.
+func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, attr *attribute,
+	ty reflect.Type) reflect.Value {
 	logger.Info("allocVariable", dimLengths, "count=", bf.(remReader).Count(),
 		"rem=", bf.(remReader).Rem())
 	if len(dimLengths) == 0 {
-		var length uint32
-		var addr uint64
-		var index uint32
-		util.MustReadLE(bf, &length)
-		util.MustReadLE(bf, &addr)
-		util.MustReadLE(bf, &index)
-		logger.Infof("length %d(0x%x) addr 0x%x index %d(0x%x)\n",
-			length, length, addr, index, index)
-		var val0 any
-		var s []byte
-		var bff remReader
-		if length == 0 {
-			// If there's no value to read, we fake one to get the type.
-			attr.dimensions = nil
-			s = make([]byte, attr.length)
-			bff = newResetReaderFromBytes(s)
-		} else {
-			bff, _ = hr.readGlobalHeap(addr, index)
-		}
-		var t reflect.Type
-		val0 = getDataAttr(hr, c, bff, attr)
-		if cast != nil {
-			t = cast.Elem()
-		} else {
-			t = reflect.ValueOf(val0).Type()
-		}
-		sl := reflect.MakeSlice(reflect.SliceOf(t), int(length), int(length))
-		if cast != nil {
-			sl = sl.Convert(cast)
-		}
+		length, data := readSequence(hr, bf)
 		if length > 0 {
-			sl.Index(0).Set(reflect.ValueOf(val0))
-			for i := 1; i < int(length); i++ {
-				val := getDataAttr(hr, c, bff, attr)
-				sl.Index(i).Set(reflect.ValueOf(val))
-			}
+			assertError(int64(length) <= data.Rem()/int64(attr.length), ErrCorrupted,
+				"sequence is too long")
+			hr.charge(uint64(length), attr)
 		}
-		return sl.Interface()
-	}
-	thisDim := dimLengths[0]
-	if len(dimLengths) == 1 {
-		// For scalars, this can be faster using binary.Read
-		vals := make([]any, thisDim)
-		for i := range thisDim {
-			logger.Info("Alloc inner", i, "of", thisDim)
-			vals[i] = allocVariable(hr, c, bf, dimLengths[1:], attr, cast)
+		sl := reflect.MakeSlice(reflect.SliceOf(ty.Elem()), int(length), int(length))
+		for i := range int(length) {
+			val := getDataAttr(hr, c, data, *attr)
+			assertError(val != nil, ErrUnsupportedType, "unsupported type")
+			sl.Index(i).Set(reflect.ValueOf(val))
 		}
-		assert(vals[0] != nil, "we never return nil")
-		t := reflect.ValueOf(vals[0]).Type()
-		vals2 := reflect.MakeSlice(reflect.SliceOf(t), int(thisDim), int(thisDim))
-		for i := range int(thisDim) {
-			vals2.Index(i).Set(reflect.ValueOf(vals[i]))
-		}
-		return vals2.Interface()
-	}
-
-	// TODO: we sometimes know the type (float32) and can do something smarter here
-
-	vals := make([]any, thisDim)
-	for i := range thisDim {
-		logger.Info("Alloc outer", i, "of", thisDim)
-		vals[i] = allocVariable(hr, c, bf, dimLengths[1:], attr, cast)
+		return sl.Convert(ty)
 	}
-	t := reflect.ValueOf(vals[0]).Type()
-	vals2 := reflect.MakeSlice(reflect.SliceOf(t), int(thisDim), int(thisDim))
-	for i := range int(thisDim) {
-		vals2.Index(i).Set(reflect.ValueOf(vals[i]))
+	vals := makeSlices(ty, dimLengths)
+	for i := range int(dimLengths[0]) {
+		vals.Index(i).Set(allocVariable(hr, c, bf, dimLengths[1:], attr, ty))
 	}
-	return vals2.Interface()
+	return vals
 }
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index ae7db80..5815574 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -147,13 +147,16 @@ func calcFieldSize(val any) int {
 	return 0
 }
 
-// writeEnc writes a 1, 2, or 4 byte encoded integer for compound byte offsets.
+// writeEnc writes a 1, 2, 3, or 4 byte encoded integer for compound byte offsets.
 func writeEnc(buf *bytes.Buffer, val uint32, totalSize uint32) {
 	switch {
 	case totalSize < 256:
 		util.MustWriteByte(buf, byte(val))
 	case totalSize < 65536:
 		util.MustWriteLE(buf, uint16(val))
+	case totalSize < 16777216:
+		util.MustWriteLE(buf, uint16(val))
+		util.MustWriteByte(buf, byte(val>>16))
 	default:
 		util.MustWriteLE(buf, val)
 	}
-- 
2.43.0


From 5a9a70ba1df466ca7a7d455821d16f2b1bd61440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 16/35] fix: hdf5: chunks of arrays with more than two
 dimensions were put in the wrong order

---
 netcdf/hdf5/hdf5.go    |   1 +
 netcdf/hdf5/readers.go | 152 +++++++++++++++--------------------------
 2 files changed, 57 insertions(+), 96 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 0901553..f6e09bd 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2795,6 +2795,7 @@ func (h5 *HDF5) newMaybeLayoutRecordReader(obj *object, size uint64) remReader {
 	}
 	if needsLayoutReader(obj.objAttr) {
 		h5.checkMemory(obj.objAttr.layout, obj.objAttr)
+		h5.checkMemory(stripeDimensions(obj.objAttr), obj.objAttr)
 		r = newLayoutReader(r, obj)
 	}
 	return newResetReader(r, int64(size))
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 458f632..9f4b92e 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -402,115 +402,64 @@ func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLen
 	return flatChunkIndex * chunkSize * dtLength, true
 }
 
+// fillrow reads the next stripe, which is all the chunks at the same place along the first
+// dimension, and puts their elements in the order they have in the array.
 func (lr *layoutReader) fillrow() error {
 	attr := lr.obj.objAttr
 	dims := attr.dimensions
 	layout := attr.layout
 	dtLength := uint64(attr.length)
-	rank := len(dims)
-
-	// Grid dimensions
-	g := make([]int, rank)
-	totalStripes := 1
-	for i := range rank {
-		g[i] = int((dims[i] + layout[i] - 1) / layout[i])
-		if i < rank-1 {
-			totalStripes *= g[i]
-		}
-	}
+	last := len(dims) - 1
 
-	if lr.stripeIndex >= totalStripes {
+	if uint64(lr.stripeIndex) >= chunksAlong(attr, 0) {
 		return io.EOF
 	}
+	start := make([]uint64, len(dims)) // where the chunk starts in the array
+	start[0] = uint64(lr.stripeIndex) * layout[0]
 
-	// Current stripe grid coordinates
-	stripeCoords := make([]int, rank-1)
-	tempIndex := lr.stripeIndex
-	for i := rank - 2; i >= 0; i-- {
-		stripeCoords[i] = tempIndex % g[i]
-		tempIndex /= g[i]
-	}
-
-	// Calculate number of valid rows in this stripe
-	// A "row" here is the last dimension.
-	numRowsInStripe := 1
-	validCounts := make([]int, rank-1)
-	for i := range rank - 1 {
-		start := uint64(stripeCoords[i]) * layout[i]
-		end := start + layout[i]
-		if end > dims[i] {
-			end = dims[i]
-		}
-		validCounts[i] = int(end - start)
-		numRowsInStripe *= validCounts[i]
-	}
-
-	// Stripe buffer size
-	lineLen := dims[rank-1]
-	lr.buf = make([]byte, uint64(numRowsInStripe)*lineLen*dtLength)
-
-	// Read one stripe of chunks
-	numChunksInStripe := g[rank-1]
-	chunkSize := calcChunkSize(attr)
-	readBuf := make([]byte, chunkSize*dtLength)
-
-	for gc := range numChunksInStripe {
-		// Read one chunk
+	stripe := stripeDimensions(attr)
+	stripe[0] = min(layout[0], dims[0]-start[0])
+	lr.buf = make([]byte, product(stripe)*dtLength)
+	readBuf := make([]byte, calcChunkSize(attr)*dtLength)
+	// A line is the elements of a chunk along the last dimension.
+	chunkLine := layout[last] * dtLength
+	for {
 		_, err := io.ReadFull(lr.r, readBuf)
 		if err != nil {
 			return err
 		}
-
-		// Interleave this chunk's rows into lr.buf
-		numRowsInChunk := 1
-		for i := range rank - 1 {
-			numRowsInChunk *= int(layout[i])
-		}
-
-		chunkLineLen := layout[rank-1]
-		delta := make([]int, rank-1)
-
-		for rc := range numRowsInChunk {
-			// Decode rc into local relative coordinates
-			tempRC := rc
-			for i := rank - 2; i >= 0; i-- {
-				delta[i] = tempRC % int(layout[i])
-				tempRC /= int(layout[i])
+		lineLen := min(layout[last], dims[last]-start[last]) * dtLength
+		delta := make([]uint64, last) // where the line is in the chunk
+		for line := readBuf; len(line) > 0; line = line[chunkLine:] {
+			inside := delta[0] < stripe[0]
+			dest := delta[0]
+			for i := 1; i < last; i++ {
+				inside = inside && start[i]+delta[i] < dims[i]
+				dest = dest*dims[i] + start[i] + delta[i]
 			}
-
-			// Check if this row is valid in the dataset
-			isValid := true
-			for i := range rank - 1 {
-				if uint64(stripeCoords[i])*layout[i]+uint64(delta[i]) >= dims[i] {
-					isValid = false
+			if inside {
+				dest = (dest*dims[last] + start[last]) * dtLength
+				copy(lr.buf[dest:dest+lineLen], line)
+			}
+			for i := last - 1; i >= 0; i-- {
+				delta[i]++
+				if delta[i] < layout[i] {
 					break
 				}
+				delta[i] = 0
 			}
-
-			if !isValid {
-				continue
-			}
-
-			destRowIndex := 0
-			stride := 1
-			for i := rank - 2; i >= 0; i-- {
-				destRowIndex += delta[i] * stride
-				stride *= validCounts[i]
-			}
-
-			srcOffset := uint64(rc) * chunkLineLen * dtLength
-			destColOffset := uint64(gc) * layout[rank-1]
-			if destColOffset >= lineLen {
-				continue
-			}
-
-			destOffset := (uint64(destRowIndex)*lineLen + destColOffset) * dtLength
-			copyLen := chunkLineLen
-			if destColOffset+copyLen > lineLen {
-				copyLen = lineLen - destColOffset
+		}
+		// Next chunk
+		i := last
+		for ; i > 0; i-- {
+			start[i] += layout[i]
+			if start[i] < dims[i] {
+				break
 			}
-
-			copy(lr.buf[destOffset:destOffset+copyLen*dtLength], readBuf[srcOffset:srcOffset+copyLen*dtLength])
+			start[i] = 0
+		}
+		if i == 0 {
+			break
 		}
 	}
 
@@ -518,6 +467,21 @@ func (lr *layoutReader) fillrow() error {
 	return nil
 }
 
+// stripeDimensions returns the dimensions of a stripe of chunks.
+func stripeDimensions(attr *attribute) []uint64 {
+	stripe := append([]uint64{}, attr.dimensions...)
+	stripe[0] = min(stripe[0], attr.layout[0])
+	return stripe
+}
+
+func product(dims []uint64) uint64 {
+	p := uint64(1)
+	for _, d := range dims {
+		p *= d
+	}
+	return p
+}
+
 func (lr *layoutReader) Read(b []byte) (int, error) {
 	if len(lr.buf) == 0 {
 		err := lr.fillrow()
@@ -546,12 +510,8 @@ func newLayoutReader(r remReader, obj *object) remReader {
 	lr := &layoutReader{r, obj, nil, int64(size), 0, 0}
 	if attr.isSlice {
 		rowSize := size / attr.dimensions[0]
-		stripes := 1
-		for i := 1; i < len(attr.dimensions)-1; i++ {
-			stripes *= int(chunksAlong(attr, i))
-		}
 		firstChunk := uint64(attr.firstDim) / attr.layout[0]
-		lr.stripeIndex = int(firstChunk) * stripes
+		lr.stripeIndex = int(firstChunk)
 		lr.size = int64((uint64(attr.lastDim) - firstChunk*attr.layout[0]) * rowSize)
 		if attr.lastDim > attr.firstDim {
 			skip(lr, int64((uint64(attr.firstDim)-firstChunk*attr.layout[0])*rowSize))
-- 
2.43.0


From 301e4abe5237c07f0308f58c4058dfdd1af78df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 17/35] fix: hdf5: attributes whose zero-length dimension
 follows another were called corrupted

---
 netcdf/hdf5/hdf5.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index f6e09bd..fdfca95 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -12,6 +12,7 @@ import (
 	"math/bits"
 	"os"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -740,6 +741,9 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	printDatatype(h5.newValueHeap(), h5, pf, attr)
 	if !isNull {
 		size := uint64(attr.length)
+		if slices.Contains(dims, 0) {
+			size = 0
+		}
 		for _, d := range dims {
 			assertError(d == 0 || size <= uint64(bf.Rem())/d, ErrCorrupted, "attribute data missing")
 			size *= d
-- 
2.43.0


From 7034b4e1592df92a6d8e5cfef49f4133958cab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 18/35] fix: hdf5: slices of the last rows of a chunked
 variable with many chunks read as fill values

---
 netcdf/hdf5/hdf5.go | 55 ++++++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index fdfca95..ba38fad 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1066,32 +1066,18 @@ func (h5 *HDF5) readRecord(obj *object, bf remReader, ty byte) {
 	}
 }
 
-func calculateFlatOffsetFromKeys(offsets []uint64, dimensions []uint64, dtSize uint64) uint64 {
-	dso := uint64(0)
-	sizes := dtSize
-	rank := len(dimensions)
-	if len(offsets) < rank {
-		rank = len(offsets)
-	}
-	for d := rank - 1; d >= 0; d-- {
-		dso += offsets[d] * sizes
-		sizes *= dimensions[d]
-	}
-	return dso
-}
-
 // readBTreeNode returns the chunks in the tree which may have data in the given range
-// of offsets in the whole array.
+// of rows.
 func (h5 *HDF5) readBTreeNode(parent *object, bta uint64, dtSize uint64,
-	numberOfElements uint64, dimensionality uint8, firstOffset, lastOffset uint64) []dataBlock {
+	numberOfElements uint64, dimensionality uint8, firstRow, lastRow uint64) []dataBlock {
 	seen := make(map[uint64]bool)
 	return h5.readBTreeNodeAny(parent, nil, seen, bta, true /*isTop*/, dtSize, numberOfElements,
-		dimensionality, firstOffset, lastOffset)
+		dimensionality, firstRow, lastRow)
 }
 
 func (h5 *HDF5) readBTreeNodeAny(parent *object, blocks []dataBlock, seen map[uint64]bool,
 	bta uint64, isTop bool, dtSize uint64, numberOfElements uint64, dimensionality uint8,
-	firstOffset, lastOffset uint64) []dataBlock {
+	firstRow, lastRow uint64) []dataBlock {
 	assertError(!seen[bta], ErrCorrupted, "loop in B-tree")
 	seen[bta] = true
 	bf := h5.newSeek(bta, 24) // adjust later
@@ -1112,7 +1098,6 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, blocks []dataBlock, seen map[ui
 		filterMask uint32
 		offsets    []uint64
 		addr       uint64
-		flatOffset uint64
 	}
 
 	bf = h5.newSeek(bta+uint64(bf.Count()),
@@ -1130,26 +1115,25 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, blocks []dataBlock, seen map[ui
 		if i < int(entriesUsed) {
 			entries[i].addr = read64(bf)
 		}
-		entries[i].flatOffset = calculateFlatOffsetFromKeys(entries[i].offsets,
-			parent.objAttr.dimensions, dtSize)
 	}
+	assertError(dimensionality > 1, ErrCorrupted, "chunks without dimensions")
 
 	for i := range int(entriesUsed) {
-		low := entries[i].flatOffset
-		high := entries[i+1].flatOffset
-		if nodeLevel == 0 {
-			high = low + numberOfElements*dtSize
+		// Skip what doesn't have any of the rows. The chunks of an entry start at its key at
+		// the earliest, and at the next key at the latest (inclusive, as the last key
+		// of a node can be that of its last chunk).
+		low := entries[i].offsets[0]
+		high := low
+		if nodeLevel > 0 {
+			high = entries[i+1].offsets[0]
 		}
-
-		// Prune if the requested range [firstOffset, lastOffset) does not overlap
-		// with the range covered by this entry [low, high).
-		if low >= lastOffset || (high > 0 && high <= firstOffset) {
+		if low >= lastRow || high+parent.objAttr.layout[0] <= firstRow {
 			continue
 		}
 
 		if nodeLevel > 0 {
 			blocks = h5.readBTreeNodeAny(parent, blocks, seen, entries[i].addr, false, /*not top*/
-				dtSize, numberOfElements, dimensionality, firstOffset, lastOffset)
+				dtSize, numberOfElements, dimensionality, firstRow, lastRow)
 			continue
 		}
 
@@ -2639,15 +2623,14 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 		rowSize := dataSize / attr.dimensions[0]
 		firstOffset = uint64(attr.firstDim) * rowSize
 		lastOffset = uint64(attr.lastDim) * rowSize
-		if needsLayoutReader(attr) {
-			// Need whole chunks
-			chunkRows := attr.layout[0]
-			firstOffset = uint64(attr.firstDim) / chunkRows * chunkRows * rowSize
-		}
 	}
 	blocks := obj.dataBlocks
 	if len(blocks) == 0 && obj.btreeAddr != 0 {
-		blocks = h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
+		firstRow, lastRow := uint64(0), uint64(math.MaxUint64)
+		if attr.isSlice {
+			firstRow, lastRow = uint64(attr.firstDim), uint64(attr.lastDim)
+		}
+		blocks = h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstRow, lastRow)
 	}
 	if needsLayoutReader(attr) {
 		// The range in whole chunks
-- 
2.43.0


From ca7853148b926a8ae64252bdbe6b81e55b58122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 19/35] fix: hdf5: errors rather than panics for integers and
 floats of other sizes, and a limit for huge scalars

Both come from corrupted types.
---
 netcdf/hdf5/fixedPoint.go    | 6 ++++--
 netcdf/hdf5/floatingPoint.go | 6 ++++--
 netcdf/hdf5/hdf5.go          | 1 +
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/netcdf/hdf5/fixedPoint.go b/netcdf/hdf5/fixedPoint.go
index 91e85dc..2674d4d 100644
--- a/netcdf/hdf5/fixedPoint.go
+++ b/netcdf/hdf5/fixedPoint.go
@@ -34,7 +34,8 @@ func (fixedPointManagerType) cdlTypeString(sh sigHelper, name string, attr *attr
 	case 8:
 		return prefix + "int64"
 	default:
-		panic("bad int length")
+		fail("bad int length")
+		return ""
 	}
 }
 
@@ -53,7 +54,8 @@ func (fixedPointManagerType) goTypeString(sh sigHelper, name string, attr *attri
 	case 8:
 		return prefix + "int64"
 	default:
-		panic("bad int length")
+		fail("bad int length")
+		return ""
 	}
 }
 
diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 36d77b8..c44c117 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -26,7 +26,8 @@ func (floatingPointManagerType) cdlTypeString(sh sigHelper, name string, attr *a
 	case 8:
 		return "double"
 	default:
-		panic("bad fp length")
+		fail("bad fp length")
+		return ""
 	}
 }
 
@@ -37,7 +38,8 @@ func (floatingPointManagerType) goTypeString(sh sigHelper, name string, attr *at
 	case 8:
 		return "float64"
 	default:
-		panic("bad fp length")
+		fail("bad fp length")
+		return ""
 	}
 }
 
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index ba38fad..0305138 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -354,6 +354,7 @@ func (h5 *HDF5) checkMemory(dimensions []uint64, attr *attribute) {
 			slices *= d
 		}
 	}
+	assertError(empty || total <= limit, ErrCorrupted, "too much data missing")
 }
 
 func (h5 *HDF5) memoryLimit() int64 {
-- 
2.43.0


From c45d30d4be405904585e970e770e792a0c7c9a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 20/35] fix: hdf5: an object header of version 0 is corrupted,
 not empty

---
 netcdf/hdf5/hdf5.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 0305138..c8fdd5a 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2396,14 +2396,7 @@ func (h5 *HDF5) readDataObjectHeaderV1(obj *object, addr uint64) {
 	bf := h5.newSeek(addr, 16)
 	version := read8(bf)
 	logger.Info("v1 object header version=", version)
-	switch version {
-	case 1:
-		break
-	case 0:
-		logger.Warn("Data object header version should be 1, but is zero. Continuing anyway.")
-	default:
-		fail(fmt.Sprintf("Invalid data object header version: %d", version))
-	}
+	checkVal(1, version, "data object header version")
 
 	reserved := read8(bf)
 	checkVal(0, reserved, "reserved")
-- 
2.43.0


From 552c69dbcc01366b60a722c3856fd3cdb65ad121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 21/35] fix: cdf: refuse attribute maps that list an attribute
 twice

---
 netcdf/cdf/cdfwriter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index a5e44b3..aa86d47 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -701,7 +701,13 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 	if attrs == nil {
 		return
 	}
+	seen := make(map[string]bool)
 	for _, k := range attrs.Keys() {
+		if seen[k] {
+			logger.Error("duplicate attribute", k)
+			thrower.Throw(ErrAttribute)
+		}
+		seen[k] = true
 		v, _ := attrs.Get(k)
 		switch v.(type) {
 		case string, int8, int16, int32, float32, float64,
-- 
2.43.0


From ed71fda57cb638510ca727c655b3216541be07bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 22/35] fix: hdf5: write named string types in variable-length
 lists

---
 netcdf/hdf5/hdf5writer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index c298c22..1e9dd39 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -808,14 +808,15 @@ func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value) heapRef {
 			util.MustWriteRaw(buf, []byte(val))
 		case enumerated:
 			util.MustWrite(buf, hw.byteOrder, val.values)
-		case string:
-			hw.writeStringDescriptor(buf, val)
 		default:
-			if isNesting(elem.Type()) {
+			switch {
+			case isNesting(elem.Type()):
 				hw.writeVlenDescriptor(buf, elem.Len())
-				continue
+			case elem.Kind() == reflect.String:
+				hw.writeStringDescriptor(buf, elem.String())
+			default:
+				util.MustWrite(buf, hw.byteOrder, val)
 			}
-			util.MustWrite(buf, hw.byteOrder, val)
 		}
 	}
 	return hw.addToHeap(buf.Bytes())
-- 
2.43.0


From b3e3b5a7ec1699d7c41e50d2234ddfcf70b8bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 23/35] fix: hdf5: don't keep the caller's slice of dimension
 names

---
 netcdf/hdf5/hdf5writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 1e9dd39..c11aee3 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1186,7 +1186,7 @@ func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) (err erro
 	g.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
-		dimensions: vr.Dimensions,
+		dimensions: slices.Clone(vr.Dimensions), // the caller may reuse the slice
 		shape:      shape,
 		attributes: vr.Attributes,
 	}
-- 
2.43.0


From 810390bcd8fe34faceaf239f10633e2ad4cff1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 24/35] fix: refuse names that aren't UTF-8

---
 internal/validname.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/validname.go b/internal/validname.go
index 783a858..1d6a5cb 100644
--- a/internal/validname.go
+++ b/internal/validname.go
@@ -2,12 +2,14 @@ package internal
 
 import (
 	"regexp"
+	"unicode/utf8"
 )
 
 const (
 	// A valid name must start with a letter or digit (not underscore,
 	// which is reserved for system use like _FillValue, _NCProperties).
-	// It may contain any character after that except control and slash.
+	// It may contain any character (encoded as UTF-8) after that except control
+	// and slash.
 	pattern = `^[\pL\pN][^\pC/]*$`
 	// It may not end with a whitespace character.
 	antiPattern = `\pZ$`
@@ -32,5 +34,5 @@ func init() {
 
 // IsValidNetCDFName returns true if name is a valid NetCDF name.
 func IsValidNetCDFName(name string) bool {
-	return re.MatchString(name) && !antiRe.MatchString(name)
+	return utf8.ValidString(name) && re.MatchString(name) && !antiRe.MatchString(name)
 }
-- 
2.43.0


From dd0a0715796ae018b55f15e6bc249f5f467c9709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 25/35] fix: util: ordered maps list a key that is added again
 once, and share no slices or maps with their callers

---
 netcdf/util/orderedmap.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index ff9fe1f..d98ca7f 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -46,23 +46,24 @@ func NewOrderedMap(keys []string, values map[string]any) (*OrderedMap, error) {
 			return nil, ErrorKeysDontMatchValues
 		}
 	}
-	if values == nil {
-		values = map[string]any{}
+	// Don't share anything with the caller.
+	ownValues := make(map[string]any, len(values))
+	for k, v := range values {
+		ownValues[k] = v
 	}
 
-	visibleKeys := []string{}
-	visibleKeys = append(visibleKeys, keys...)
-
 	return &OrderedMap{
-		keys:        keys,
-		values:      values,
-		visibleKeys: visibleKeys,
+		keys:        append([]string{}, keys...),
+		values:      ownValues,
+		visibleKeys: append([]string{}, keys...),
 		hiddenKeys:  map[string]bool{}}, nil
 }
 
-// Add adds a key/value pair to an ordered map at the end.
+// Add adds a key/value pair to an ordered map at the end, or replaces
+// the value if the key is there already.
 func (om *OrderedMap) Add(name string, val any) {
-	if !om.hiddenKeys[name] {
+	_, has := om.values[name]
+	if !has && !om.hiddenKeys[name] {
 		om.keys = append(om.keys, name)
 		om.visibleKeys = append(om.visibleKeys, name)
 	}
@@ -101,7 +102,7 @@ func (om *OrderedMap) Hide(hiddenKey string) {
 // Keys returns the keys in order for the map.
 // It does not return the hidden keys.
 func (om *OrderedMap) Keys() []string {
-	return om.visibleKeys
+	return append([]string{}, om.visibleKeys...)
 }
 
 func (om *OrderedMap) pGoType(val any) (string, bool) {
-- 
2.43.0


From 21807d1c9c5abcceaeecd24a8b573012cf3bae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 26/35] fix: util: dimensions of lists of structs don't go into
 their members' types

---
 netcdf/util/orderedmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index d98ca7f..ba8f45f 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -187,7 +187,7 @@ func (om *OrderedMap) putDim(inner string, dim int, kind reflect.Kind) string {
 		sDim = strconv.Itoa(dim)
 	}
 	parenLoc := strings.LastIndex(inner, "(")
-	if parenLoc == -1 || parenLoc == len(inner)-1 {
+	if parenLoc == -1 || !strings.HasSuffix(inner, ")") { // could be in a compound
 		return fmt.Sprintf("%s(%s)", inner, sDim)
 	}
 	fixed := fmt.Sprintf("%s%s,%s", inner[:parenLoc+1], sDim, inner[parenLoc+1:])
-- 
2.43.0


From b790cf940acde077cc0299ee39afd14d88fc867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 27/35] fix: hdf5: version 2 fill value messages without a
 value leave it undefined

---
 netcdf/hdf5/hdf5.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index c8fdd5a..860ce0a 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1932,6 +1932,10 @@ func (h5 *HDF5) readFillValue(bf io.Reader) []byte {
 
 	logger.Info("fill value defined=", fillValueDefined)
 
+	if version == 2 && fillValueDefined == 0 {
+		logger.Warnf("undefined fill value")
+		return fillValueUndefinedConstant // only the pointer is used
+	}
 	if version > 1 && fillValueDefined == 0 {
 		logger.Infof("default fill value")
 		return nil // default is zero
-- 
2.43.0


From e97c4891a16c1499ddbb61d470875c58eba99618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 28/35] fix: cdf: closing a group handle again does not close
 the file under the others

---
 netcdf/cdf/cdf.go | 77 +++++++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 32 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 81100b5..2c85e2d 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -67,18 +67,24 @@ const (
 	slow = true  // slow conversion, uses reflection for everything.
 )
 
+// An open file and how many handles it has
+type refCountedFile struct {
+	mu       sync.Mutex
+	file     api.ReadSeekerCloser
+	refCount int
+}
+
 type CDF struct {
-	fname        string
-	mu           sync.Mutex // for the file and its reference count
-	file         api.ReadSeekerCloser
-	fileRefCount int
-	version      uint8
-	numRecs      uint64 // 64-bits in V5
-	recSize      uint64
-	dimensions   []dimension
-	globalAttrs  *util.OrderedMap
-	vars         *util.OrderedMap
-	slowConvert  convertType // default is fast
+	fname       string
+	rcFile      *refCountedFile // shared with the other handles
+	closed      bool            // this handle (under the file's lock)
+	version     uint8
+	numRecs     uint64 // 64-bits in V5
+	recSize     uint64
+	dimensions  []dimension
+	globalAttrs *util.OrderedMap
+	vars        *util.OrderedMap
+	slowConvert convertType // default is fast
 }
 
 const maxDimensions = 1024
@@ -426,7 +432,7 @@ func (cdf *CDF) readNumber(bf io.Reader) uint64 {
 
 func (cdf *CDF) readHeader() (err error) {
 	defer thrower.RecoverError(&err)
-	bf := io.Reader(bufio.NewReader(cdf.file))
+	bf := io.Reader(bufio.NewReader(cdf.rcFile.file))
 
 	// magic
 	b := readBytes(bf, 4)
@@ -510,35 +516,41 @@ func (cdf *CDF) readHeader() (err error) {
 // longer being used by any other groups.
 func (cdf *CDF) Close() {
 	defer thrower.RecoverError(nil)
-	cdf.mu.Lock()
-	defer cdf.mu.Unlock()
-	assert(cdf.fileRefCount > 0, "ref count off", ErrInternal)
-	cdf.fileRefCount--
-	if cdf.fileRefCount == 0 {
-		err := cdf.file.Close()
+	rcf := cdf.rcFile
+	rcf.mu.Lock()
+	defer rcf.mu.Unlock()
+	if cdf.closed {
+		return
+	}
+	cdf.closed = true
+	assert(rcf.refCount > 0, "ref count off", ErrInternal)
+	rcf.refCount--
+	if rcf.refCount == 0 {
+		err := rcf.file.Close()
 		if err != nil {
 			logger.Error("Error on close (ignored):", err)
 		}
-		cdf.file = nil
+		rcf.file = nil
 	}
 }
 
 // GetGroup gets the given group or returns an error if not found.
 // The group can start with "/" for absolute names, or relative.
 func (cdf *CDF) GetGroup(group string) (g api.Group, err error) {
-	// TODO: use hdf5 file refcounting
 	// TODO: fake groups with "/" in names
 	defer thrower.RecoverError(&err)
 	if group != "" && group != "/" {
 		return nil, ErrNotFound
 	}
-	cdf.mu.Lock()
-	defer cdf.mu.Unlock()
-	if cdf.fileRefCount == 0 {
+	rcf := cdf.rcFile
+	rcf.mu.Lock()
+	defer rcf.mu.Unlock()
+	if cdf.closed {
 		return nil, os.ErrClosed
 	}
-	cdf.fileRefCount++
-	return api.Group(cdf), nil
+	rcf.refCount++
+	handle := *cdf
+	return api.Group(&handle), nil
 }
 
 // Open is the implementation of the API netcdf.Open.
@@ -559,7 +571,7 @@ func Open(fname string) (api.Group, error) {
 // Using netcdf.New is preferred over using this directly.
 func New(file api.ReadSeekerCloser) (ag api.Group, err error) {
 	defer thrower.RecoverError(&err)
-	c := &CDF{file: file, fileRefCount: 1}
+	c := &CDF{rcFile: &refCountedFile{file: file, refCount: 1}}
 	err = c.readHeader()
 	if err != nil {
 		return nil, err
@@ -873,12 +885,13 @@ func (cdf *CDF) readRows(v *variable, isRecord bool, first, nRows, rowLen int64,
 	end := addSize(begin, mulSize(uint64(nRows), uint64(stride)))
 	offset := int64(begin)
 
-	cdf.mu.Lock()
-	defer cdf.mu.Unlock()
-	if cdf.file == nil {
+	rcf := cdf.rcFile
+	rcf.mu.Lock()
+	defer rcf.mu.Unlock()
+	if rcf.file == nil {
 		return nil, os.ErrClosed
 	}
-	fileSize, err := cdf.file.Seek(0, io.SeekEnd)
+	fileSize, err := rcf.file.Seek(0, io.SeekEnd)
 	thrower.ThrowIfError(err)
 	if int64(end) > fileSize {
 		missing := nRows * rowSize
@@ -908,8 +921,8 @@ func (cdf *CDF) readRows(v *variable, isRecord bool, first, nRows, rowLen int64,
 // readFilled reads from the given offset, and replaces what is past the end of the
 // file with fill values.
 func (cdf *CDF) readFilled(v *variable, offset int64, b []byte, elemSize int) {
-	seekTo(cdf.file, offset)
-	n, err := io.ReadFull(cdf.file, b)
+	seekTo(cdf.rcFile.file, offset)
+	n, err := io.ReadFull(cdf.rcFile.file, b)
 	switch err {
 	case nil:
 		return
-- 
2.43.0


From cb628b95718772c3f9148e53faab1bf7a4488bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 29/35] fix: New finds the format at the start of the file
 wherever it is positioned

---
 netcdf/cdf/cdf.go | 1 +
 netcdf/netcdf4.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 2c85e2d..39987e6 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -432,6 +432,7 @@ func (cdf *CDF) readNumber(bf io.Reader) uint64 {
 
 func (cdf *CDF) readHeader() (err error) {
 	defer thrower.RecoverError(&err)
+	seekTo(cdf.rcFile.file, 0)
 	bf := io.Reader(bufio.NewReader(cdf.rcFile.file))
 
 	// magic
diff --git a/netcdf/netcdf4.go b/netcdf/netcdf4.go
index 9f676c6..07ebb55 100644
--- a/netcdf/netcdf4.go
+++ b/netcdf/netcdf4.go
@@ -68,6 +68,10 @@ func New(file api.ReadSeekerCloser) (api.Group, error) {
 }
 
 func getKind(file io.ReadSeeker) (byte, error) {
+	_, err := file.Seek(0, io.SeekStart)
+	if err != nil {
+		return 0, err
+	}
 	var b [1]byte
 	n, err := file.Read(b[:])
 	if n == 0 {
-- 
2.43.0


From 59791164d8de512e0368a883dd407b9f4c9906cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 30/35] fix: the types of empty attributes say that they are
 slices

---
 netcdf/hdf5/hdf5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 860ce0a..d1a9837 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3074,7 +3074,9 @@ func (h5 *HDF5) findAttrType(attrlist []*attribute, attrName string,
 		origNames := map[string]bool{}
 		base := h5.typeString(printer, attrName, attr, origNames)
 		nDims := len(attr.dimensions)
-		if attr.class == typeString && attr.length == 1 && nDims > 0 {
+		if attr.value == nil && attr.data == nil && attr.class != typeString {
+			nDims = 1 // the dataspace is null, which gives an empty slice
+		} else if attr.class == typeString && attr.length == 1 && nDims > 0 {
 			nDims-- // the last dimension is the string's
 		} else if nDims == 1 && attr.dimensions[0] == 1 {
 			nDims = 0
-- 
2.43.0


From f8eaffd134cd76da8d15ed503c9fe4ba6e359216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:41 +0000
Subject: [PATCH 31/35] fix: Close of the CDF writer closes the file if writing
 fails

---
 netcdf/cdf/cdfwriter.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index aa86d47..2cb0f9f 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -982,18 +982,20 @@ func (cw *CDFWriter) writeData(saved savedVar) {
 
 // Close writes all the data out and closes the file.
 func (cw *CDFWriter) Close() (err error) {
+	defer func() {
+		// the file is closed even if not everything could be written
+		err2 := cw.file.Close()
+		if err == nil {
+			err = err2
+		} else if err2 != nil {
+			// return the first error, log the second
+			logger.Error(err2)
+		}
+		cw.file = nil
+	}()
 	defer thrower.RecoverError(&err)
 	cw.writeAll()
-	err = cw.bf.Flush()
-	err2 := cw.file.Close()
-	if err == nil {
-		err = err2
-	} else {
-		// return the first error, log the second
-		logger.Error(err2)
-	}
-	cw.file = nil
-	return err
+	return cw.bf.Flush()
 }
 
 func writeAny(w io.Writer, any any) {
-- 
2.43.0


From 0f9f54528f72b2a0e2c5fa0fd6bf80ac686d10c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 32/35] fix: names made up for unnamed dimensions of classic
 files don't clash with the caller's

---
 netcdf/cdf/cdfwriter.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 2cb0f9f..515621b 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"slices"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
@@ -467,6 +468,11 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	copy(dimensions, vr.Dimensions)
 	var newNames []string // dimensions to add, if all goes well
 	newLengths := make(map[string]int64)
+	taken := func(dimName string) bool {
+		_, has := cw.dimLengths[dimName]
+		_, hasNew := newLengths[dimName]
+		return has || hasNew || slices.Contains(dimensions, dimName)
+	}
 	for i := range dimLengths {
 		dimName := dimensions[i]
 		if dimName == "" {
@@ -476,8 +482,15 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 				dimName = unlimited
 			case ty == typeChar && i == len(dimLengths)-1:
 				dimName = fmt.Sprintf("_stringlen_%s", name)
+				for n := 1; taken(dimName); n++ {
+					dimName = fmt.Sprintf("_stringlen_%s_%d", name, n)
+				}
 			default:
-				dimName = fmt.Sprintf("_dimid_%d", cw.nextID+int64(len(newNames)))
+				n := cw.nextID + int64(len(newNames))
+				dimName = fmt.Sprintf("_dimid_%d", n)
+				for ; taken(dimName); n++ {
+					dimName = fmt.Sprintf("_dimid_%d", n)
+				}
 			}
 			dimensions[i] = dimName
 		}
-- 
2.43.0


From 6ae69807cd4272637b319fe75164a4cad9657b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 33/35] fix: attributes, shapes and dimension lists given out
 are the caller's

---
 internal/slicer.go |  5 +++--
 netcdf/cdf/cdf.go  | 24 ++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/internal/slicer.go b/internal/slicer.go
index 061cc79..e55a63e 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"reflect"
+	"slices"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-thrower"
@@ -41,7 +42,7 @@ func (sl *slice) Len() int64 {
 }
 
 func (sl *slice) Shape() []int64 {
-	return sl.shape
+	return slices.Clone(sl.shape)
 }
 
 func (sl *slice) Attributes() api.AttributeMap {
@@ -49,7 +50,7 @@ func (sl *slice) Attributes() api.AttributeMap {
 }
 
 func (sl *slice) Dimensions() []string {
-	return sl.dimNames
+	return slices.Clone(sl.dimNames)
 }
 
 func (sl *slice) Type() string {
diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 39987e6..e807a88 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -585,7 +585,27 @@ func New(file api.ReadSeekerCloser) (ag api.Group, err error) {
 
 // Attributes returns the global attributes for this group.
 func (cdf *CDF) Attributes() api.AttributeMap {
-	return cdf.globalAttrs
+	attrs := copyAttrs(cdf.globalAttrs)
+	if val, has := cdf.globalAttrs.Get(ncpKey); has {
+		attrs.Add(ncpKey, val)
+	}
+	attrs.Hide(ncpKey)
+	return attrs
+}
+
+// copyAttrs copies what is visible in attrs, so that the header, which all groups of
+// the file share, doesn't change if the caller changes what it is given.
+func copyAttrs(attrs *util.OrderedMap) *util.OrderedMap {
+	copied, err := util.NewOrderedMap(nil, nil)
+	thrower.ThrowIfError(err)
+	for _, key := range attrs.Keys() {
+		val, _ := attrs.Get(key)
+		if rv := reflect.ValueOf(val); rv.Kind() == reflect.Slice {
+			val = reflect.AppendSlice(reflect.MakeSlice(rv.Type(), 0, rv.Len()), rv).Interface()
+		}
+		copied.Add(key, val)
+	}
+	return copied
 }
 
 func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
@@ -738,7 +758,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 	for i, v := range dimLengths {
 		shape[i] = int64(v)
 	}
-	return internal.NewSlicer(getSlice, getSliceMD, length, shape, dimNames, varFound.attrs,
+	return internal.NewSlicer(getSlice, getSliceMD, length, shape, dimNames, copyAttrs(varFound.attrs),
 		cdlType(varFound.vType), goType(varFound.vType)), nil
 }
 
-- 
2.43.0


From 1f63a706700f15173e607dc6c1956f32cd0d050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:19 +0000
Subject: [PATCH 34/35] fix: classic files with sizes of more than 32 bits are
 written in version 5

---
 netcdf/cdf/cdfwriter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 515621b..42360a7 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -511,14 +511,19 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			newNames = append(newNames, dimName)
 		}
 	}
+	saved := savedVar{name, vr.Values, ty, dimLengths, dimensions, vr.Attributes, 0}
+	// Only version 5 has sizes of 64 bits.
+	tooLong := func(n int64) bool { return n > math.MaxInt32 }
+	if cw.computeVsize(&saved) > math.MaxUint32-3 || slices.ContainsFunc(dimLengths, tooLong) {
+		cw.version = 5
+	}
 	for _, dimName := range newNames {
 		cw.dimLengths[dimName] = newLengths[dimName]
 		cw.dimIds[dimName] = cw.nextID
 		cw.dimNames = append(cw.dimNames, dimName)
 		cw.nextID++
 	}
-	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		dimensions, vr.Attributes, 0})
+	cw.vars = append(cw.vars, saved)
 	return nil
 }
 
-- 
2.43.0


From 8cc8d94d7378febff9160d0484dba89a04e0afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:40 +0000
Subject: [PATCH 35/35] fix: classic files with more than 1024 dimensions are
 read

---
 netcdf/cdf/cdf.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index e807a88..eb4f092 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -87,7 +87,7 @@ type CDF struct {
 	slowConvert convertType // default is fast
 }
 
-const maxDimensions = 1024
+const maxDimensions = 1024 // of a variable
 
 // How much memory may be spent on a read for what isn't in the file (fill values and
 // slice headers). Bigger ones have to be read in smaller slices.
@@ -461,14 +461,8 @@ func (cdf *CDF) readHeader() (err error) {
 
 	// dimlist
 	nDims := cdf.getNElems(bf, fieldDimension)
-	assert(nDims <= maxDimensions,
-		"too many dimensions",
-		ErrTooManyDimensions)
-	if nDims > 0 {
-		cdf.dimensions = make([]dimension, nDims)
-		for i := uint64(0); i < nDims; i++ {
-			cdf.dimensions[i] = cdf.getDim(bf)
-		}
+	for i := uint64(0); i < nDims; i++ {
+		cdf.dimensions = append(cdf.dimensions, cdf.getDim(bf))
 	}
 
 	// gatt_list
-- 
2.43.0

