From 9c5ee1490ce43eb68793808013bb8ff386f948d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 01/68] fix: do not read unquoted array elements that start
 with NULL as NULL

---
 pgsql/convert_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 2a8fd1a..87bd09a 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -273,7 +273,8 @@ mainloop:
 				}
 			}
 		case 'N': // NULL?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
+			// an unquoted element that merely starts with NULL is not NULL
+			if len(a) > i+3 && string(a[i:i+4]) == `NULL` && (len(a) == i+4 || a[i+4] == ',') {
 				out = append(out, []byte(nil))
 				i = i + 3
 				continue mainloop
-- 
2.43.0


From 2a67995a24e92c4a071f7cbc6c303c10dfc274e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 02/68] fix: scan empty hstore values as empty strings, not as
 NULL

---
 pgsql/convert_util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 87bd09a..977bd8f 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -95,6 +95,7 @@ func pgparsehstore(a []byte) (out [][2][]byte) {
 
 	for i := 0; i < len(a); i++ {
 		if a[i] == '"' { // start of key or value?
+			pair[idx] = []byte{} // quoted, i.e. not NULL even if empty
 			for j := i + 1; j < len(a); j++ {
 				if a[j] == '\\' {
 					j++ // skip escaped char
@@ -147,6 +148,7 @@ func pgparsehstorearr(a []byte) (out [][][2][]byte) {
 			for j := i + 1; j < len(a); j++ {
 
 				if a[j] == '\\' && a[j+1] == '"' { // start of key or value?
+					pair[idx] = []byte{} // quoted, i.e. not NULL even if empty
 					for k := j + 2; k < len(a); k++ {
 						if a[k] == '\\' {
 							if a[k+1] == '\\' { // escape??
-- 
2.43.0


From 569a35bb901bf8ed7c314f92b4fb4f2c2b23bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 03/68] fix: send and read negative integers as varbit

---
 pgsql/varbit.go    | 7 ++++---
 pgsql/varbitarr.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pgsql/varbit.go b/pgsql/varbit.go
index 7bdf237..0c287bb 100644
--- a/pgsql/varbit.go
+++ b/pgsql/varbit.go
@@ -41,7 +41,8 @@ type varBitFromInt64 struct {
 }
 
 func (v varBitFromInt64) Value() (driver.Value, error) {
-	out := strconv.AppendInt([]byte(nil), v.val, 2)
+	// the bits of the number; those of a negative one are its two's complement
+	out := strconv.AppendUint([]byte(nil), uint64(v.val), 2)
 	return out, nil
 }
 
@@ -57,12 +58,12 @@ func (v varBitToInt64) Scan(src interface{}) error {
 		return nil
 	}
 
-	i64, err := strconv.ParseInt(string(data), 2, 64)
+	u64, err := strconv.ParseUint(string(data), 2, 64)
 	if err != nil {
 		return err
 	}
 
-	*v.val = i64
+	*v.val = int64(u64) // a full 64-bit string is a two's complement number
 	return nil
 }
 
diff --git a/pgsql/varbitarr.go b/pgsql/varbitarr.go
index a73bba0..b90b49b 100644
--- a/pgsql/varbitarr.go
+++ b/pgsql/varbitarr.go
@@ -316,7 +316,8 @@ func (v varBitArrayFromInt64Slice) Value() (driver.Value, error) {
 
 	out := []byte{'{'}
 	for i := 0; i < len(v.val); i++ {
-		out = strconv.AppendInt(out, v.val[i], 2)
+		// the bits of the number; those of a negative one are its two's complement
+		out = strconv.AppendUint(out, uint64(v.val[i]), 2)
 		out = append(out, ',')
 	}
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -339,11 +340,11 @@ func (v varBitArrayToInt64Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int64s := make([]int64, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 2, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 2, 64)
 		if err != nil {
 			return err
 		}
-		int64s[i] = i64
+		int64s[i] = int64(u64) // a full 64-bit string is a two's complement number
 	}
 
 	*v.val = int64s
-- 
2.43.0


From 2e2c3864cb5503392f38d998ef16dd3087d527af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 04/68] fix: scan NULL elements of bytea arrays without
 panicking

---
 pgsql/byteaarr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgsql/byteaarr.go b/pgsql/byteaarr.go
index 6773d7b..ea4610d 100644
--- a/pgsql/byteaarr.go
+++ b/pgsql/byteaarr.go
@@ -71,6 +71,9 @@ func (v byteaArrayToByteSliceSlice) Scan(src interface{}) error {
 	out := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
+		if src[0] == 'N' { // NULL bytea?
+			continue
+		}
 
 		// drop the initial "\\x and the last "
 		src = src[4 : len(src)-1]
@@ -133,6 +136,9 @@ func (v byteaArrayToStringSlice) Scan(src interface{}) error {
 	out := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
+		if src[0] == 'N' { // NULL bytea?
+			continue
+		}
 
 		// drop the initial "\\x and the last "
 		src = src[4 : len(src)-1]
-- 
2.43.0


From ed6a60a8bc0ac21297b93881888203943c841114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 05/68] fix: do not scan NULL uuid array elements as the text
 NULL

---
 pgsql/uuidarr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgsql/uuidarr.go b/pgsql/uuidarr.go
index 7095a42..9257fd6 100644
--- a/pgsql/uuidarr.go
+++ b/pgsql/uuidarr.go
@@ -143,6 +143,10 @@ func (v uuidArrayToStringSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	strings := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL uuid?
+			continue
+		}
+
 		strings[i] = string(elems[i])
 	}
 
-- 
2.43.0


From 5d2de8cbe28e8a8f74a55e7dffb58fec1c27ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 06/68] fix: do not scan NULL varbit array elements as the text
 NULL

---
 pgsql/varbitarr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgsql/varbitarr.go b/pgsql/varbitarr.go
index b90b49b..9cd4cbd 100644
--- a/pgsql/varbitarr.go
+++ b/pgsql/varbitarr.go
@@ -292,6 +292,9 @@ func (v varBitArrayToStringSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	strings := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL element?
+			continue
+		}
 		if len(elems[i]) == 2 && elems[i][0] == '"' { // ""?
 			continue
 		}
-- 
2.43.0


From d8bfb9ea95065a799ad1610aebfd8b6196fa5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 07/68] fix: reject uuid text of the wrong length instead of
 panicking

---
 pgsql/convert_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 977bd8f..218e72d 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"bytes"
 	"encoding/hex"
+	"fmt"
 	"time"
 )
 
@@ -690,6 +691,9 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 
 // Expected format: 'xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx'.
 func pgParseUUID(data []byte) (arr [16]byte, err error) {
+	if len(data) != 36 {
+		return arr, fmt.Errorf("pgsql: invalid uuid length %d", len(data))
+	}
 	if _, err = hex.Decode(arr[0:4], data[0:8]); err != nil {
 		return arr, err
 	}
-- 
2.43.0


From 97d0933faa79f7db549b5995d5b87543e4cc0d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 08/68] fix: encode empty and nil int2vectors inside arrays as
 valid literals

---
 pgsql/int2vectorarr.go | 168 +++++++++++++++++++++++++++++------------
 1 file changed, 120 insertions(+), 48 deletions(-)

diff --git a/pgsql/int2vectorarr.go b/pgsql/int2vectorarr.go
index d4f980d..6424885 100644
--- a/pgsql/int2vectorarr.go
+++ b/pgsql/int2vectorarr.go
@@ -140,13 +140,19 @@ func (v int2VectorArrayFromIntSliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ints := range v.val {
+		if ints == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, i := range ints {
+		for j, i := range ints {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendInt(out, int64(i), 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -198,13 +204,19 @@ func (v int2VectorArrayFromInt8SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int8s := range v.val {
+		if int8s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, i8 := range int8s {
+		for j, i8 := range int8s {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendInt(out, int64(i8), 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -256,13 +268,19 @@ func (v int2VectorArrayFromInt16SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int16s := range v.val {
+		if int16s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, i16 := range int16s {
+		for j, i16 := range int16s {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendInt(out, int64(i16), 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -314,13 +332,19 @@ func (v int2VectorArrayFromInt32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int32s := range v.val {
+		if int32s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, i32 := range int32s {
+		for j, i32 := range int32s {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendInt(out, int64(i32), 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -372,13 +396,19 @@ func (v int2VectorArrayFromInt64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int64s := range v.val {
+		if int64s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, i64 := range int64s {
+		for j, i64 := range int64s {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendInt(out, i64, 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -430,13 +460,19 @@ func (v int2VectorArrayFromUintSliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uints := range v.val {
+		if uints == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, u := range uints {
+		for j, u := range uints {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendUint(out, uint64(u), 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -488,13 +524,19 @@ func (v int2VectorArrayFromUint8SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint8s := range v.val {
+		if uint8s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, u8 := range uint8s {
+		for j, u8 := range uint8s {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendUint(out, uint64(u8), 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -546,13 +588,19 @@ func (v int2VectorArrayFromUint16SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint16s := range v.val {
+		if uint16s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, u16 := range uint16s {
+		for j, u16 := range uint16s {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendUint(out, uint64(u16), 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -604,13 +652,19 @@ func (v int2VectorArrayFromUint32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint32s := range v.val {
+		if uint32s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, u32 := range uint32s {
+		for j, u32 := range uint32s {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendUint(out, uint64(u32), 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -662,13 +716,19 @@ func (v int2VectorArrayFromUint64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint64s := range v.val {
+		if uint64s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, u64 := range uint64s {
+		for j, u64 := range uint64s {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendUint(out, u64, 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -720,13 +780,19 @@ func (v int2VectorArrayFromFloat32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, float32s := range v.val {
+		if float32s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, f32 := range float32s {
+		for j, f32 := range float32s {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendInt(out, int64(f32), 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -778,13 +844,19 @@ func (v int2VectorArrayFromFloat64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, float64s := range v.val {
+		if float64s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"')
-		for _, f64 := range float64s {
+		for j, f64 := range float64s {
+			if j > 0 {
+				out = append(out, ' ')
+			}
 			out = strconv.AppendInt(out, int64(f64), 10)
-			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
-		out = append(out, ',')
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
-- 
2.43.0


From 661a4de835ed90d5c377c93f5e99bed4945a152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 09/68] fix: parse empty, NULL and unquoted elements of vector
 arrays

---
 pgsql/convert_util.go | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 218e72d..4637980 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -652,37 +652,33 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 
 	for i := 0; i < len(a); i++ {
 		switch a[i] {
+		case ',': // element delimiter
+			continue
 		case '"': // quoted element
 			vector := [][]byte{}
 
-			k := i + 1 // vector start
-			for j := k; j < len(a); j++ {
-				if a[j] == '"' { // vector end
-					vector = append(vector, a[k:j])
-					i = j + 1
-					break
-				}
-				if a[j] == ' ' {
-					vector = append(vector, a[k:j])
-					k = j + 1
+			k := i + 1 // item start
+			for i = k; i < len(a) && a[i] != '"'; i++ {
+				if a[i] == ' ' {
+					vector = append(vector, a[k:i])
+					k = i + 1
 				}
 			}
+			if k < i {
+				vector = append(vector, a[k:i])
+			}
 
 			out = append(out, vector)
-		case 'N': // NULL element?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
-				out = append(out, [][]byte(nil))
-				i = i + 3
-			}
 		default: // unquoted element
-			k, j := i, i // elem start
-			for ; j < len(a); j++ {
-				if a[j] == ',' { // elem end
-					i = j
-					break
-				}
+			k := i // elem start
+			for i < len(a) && a[i] != ',' {
+				i++
+			}
+			if string(a[k:i]) == `NULL` {
+				out = append(out, [][]byte(nil))
+			} else {
+				out = append(out, [][]byte{a[k:i]})
 			}
-			out = append(out, [][]byte{a[k:j]})
 		}
 	}
 
-- 
2.43.0


From fac2ceff01cd4c4bb25b2cf026ad95fd6dc9a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 10/68] fix: report numeric and bigint array elements that do
 not fit instead of truncating them

---
 pgsql/int8arr.go    |  2 +-
 pgsql/numericarr.go | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pgsql/int8arr.go b/pgsql/int8arr.go
index 5999c24..29e119d 100644
--- a/pgsql/int8arr.go
+++ b/pgsql/int8arr.go
@@ -409,7 +409,7 @@ func (v int8ArrayToUintSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uints := make([]uint, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/numericarr.go b/pgsql/numericarr.go
index 0398a41..8948c18 100644
--- a/pgsql/numericarr.go
+++ b/pgsql/numericarr.go
@@ -213,7 +213,7 @@ func (v numericArrayToInt8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int8s := make([]int8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -262,7 +262,7 @@ func (v numericArrayToInt16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int16s := make([]int16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -311,7 +311,7 @@ func (v numericArrayToInt32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int32s := make([]int32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -460,7 +460,7 @@ func (v numericArrayToUint8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint8s := make([]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -509,7 +509,7 @@ func (v numericArrayToUint16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint16s := make([]uint16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -558,7 +558,7 @@ func (v numericArrayToUint32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint32s := make([]uint32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e2c654962b889808bfb54b039ac9910ab2a97394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 11/68] fix: scan empty, unbounded and NULL elements of range
 arrays

---
 pgsql/convert_util.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 4637980..fb12fbb 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -206,6 +206,9 @@ func pgparsedate(a []byte) (time.Time, error) {
 }
 
 func pgParseRange(a []byte) (out [2][]byte) {
+	if len(a) < 2 {
+		return out // no range, i.e. a NULL array element
+	}
 	a = a[1 : len(a)-1] // drop range delimiters
 
 	for i := 0; i < len(a); i++ {
@@ -219,7 +222,7 @@ func pgParseRange(a []byte) (out [2][]byte) {
 	return out
 }
 
-// Expected format: '{STRING [, ...]}' where STRING is a double quoted string.
+// Expected format: '{STRING [, ...]}' where STRING is a double quoted string, or an unquoted string without commas.
 func pgParseQuotedStringArray(a []byte) (out [][]byte) {
 	a = a[1 : len(a)-1] // drop curly braces
 
@@ -240,9 +243,17 @@ mainloop:
 			}
 		}
 
-		if a[i] == 'N' { // NULL?
-			out = append(out, []byte(nil))
-			i += 4
+		if a[i] != ',' { // unquoted element, i.e. NULL or an empty range
+			j := i
+			for j < len(a) && a[j] != ',' {
+				j++
+			}
+			if string(a[i:j]) == `NULL` {
+				out = append(out, []byte(nil))
+			} else {
+				out = append(out, a[i:j])
+			}
+			i = j
 		}
 	}
 
-- 
2.43.0


From 30aed48a308d2b5aabf7046a8706202a48358ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 12/68] fix: encode braces and control characters and decode
 NULL in char arrays

---
 pgsql/chararr.go      | 35 ++++++++++++++----------------
 pgsql/convert_util.go | 50 +++++++++++--------------------------------
 2 files changed, 28 insertions(+), 57 deletions(-)

diff --git a/pgsql/chararr.go b/pgsql/chararr.go
index c0992be..a1d80b1 100644
--- a/pgsql/chararr.go
+++ b/pgsql/chararr.go
@@ -64,10 +64,8 @@ func (v charArrayFromString) Value() (driver.Value, error) {
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', byte(r), '"', ',')
 		default:
 			if size := utf8.RuneLen(r); size > 1 {
 				p := make([]byte, size+1, size+1)
@@ -122,10 +120,8 @@ func (v charArrayFromByteSlice) Value() (driver.Value, error) {
 			out = append(out, '"', b, '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', b, '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', b, '"', ',')
 		default:
 			out = append(out, b, ',')
 		}
@@ -173,10 +169,8 @@ func (v charArrayFromRuneSlice) Value() (driver.Value, error) {
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', byte(r), '"', ',')
 		default:
 			if size := utf8.RuneLen(r); size > 1 {
 				p := make([]byte, size+1, size+1)
@@ -227,16 +221,19 @@ func (v charArrayFromStringSlice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for _, v := range v.val {
+		if len(v) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		r, size := utf8.DecodeRuneInString(v)
 		switch r {
 		case ' ', '\t', '\r', '\n', '\f', '\v':
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', byte(r), '"', ',')
 		default:
 			if size > 1 {
 				p := make([]byte, size+1, size+1)
@@ -267,10 +264,10 @@ func (v charArrayToStringSlice) Scan(src interface{}) error {
 		return nil
 	}
 
-	runes := pgparsearray3(data)
-	val := make([]string, len(runes))
+	elems := pgParseStringArray(data)
+	val := make([]string, len(elems))
 	for i := 0; i < len(val); i++ {
-		val[i] = string(runes[i])
+		val[i] = string(elems[i])
 	}
 	*v.val = val
 	return nil
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index fb12fbb..e8a685d 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -1,10 +1,10 @@
 package pgsql
 
 import (
-	"bytes"
 	"encoding/hex"
 	"fmt"
 	"time"
+	"unicode/utf8"
 )
 
 const (
@@ -29,56 +29,30 @@ func srcbytes(src interface{}) ([]byte, error) {
 	return nil, nil // TODO error
 }
 
-// parse as single bytes
+// parse as single bytes, NULL as the zero byte
 func pgparsearray2(a []byte) (out []byte) {
 	out = make([]byte, 0, len(a))
 
-	a = a[1 : len(a)-1] // drop curly braces
-
-	for i := 0; i < len(a); i++ {
-		if a[i] == '"' {
-			if a[i+1] == '\\' {
-				out = append(out, a[i+2])
-				i += 3
-				continue
-			} else {
-				out = append(out, a[i+1])
-				i += 2
-				continue
-			}
-		}
-
-		if a[i] != ',' {
-			out = append(out, a[i])
+	for _, elem := range pgParseStringArray(a) {
+		if len(elem) == 0 {
+			elem = []byte{0}
 		}
+		out = append(out, elem...)
 	}
 
 	return out
 }
 
-// parse as single runes
+// parse as single runes, NULL as the zero rune
 func pgparsearray3(a []byte) (out []rune) {
 	out = make([]rune, 0)
 
-	a = a[1 : len(a)-1] // drop curly braces
-	r := bytes.Runes(a)
-
-	for i := 0; i < len(r); i++ {
-		if r[i] == '"' {
-			if r[i+1] == '\\' {
-				out = append(out, r[i+2])
-				i += 3
-				continue
-			} else {
-				out = append(out, r[i+1])
-				i += 2
-				continue
-			}
-		}
-
-		if r[i] != ',' {
-			out = append(out, r[i])
+	for _, elem := range pgParseStringArray(a) {
+		var r rune
+		if len(elem) > 0 {
+			r, _ = utf8.DecodeRune(elem)
 		}
+		out = append(out, r)
 	}
 
 	return out
-- 
2.43.0


From 7346606d3f2426de7bcd5921344dd4c33fe33df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 13/68] fix: escape and unescape text search values inside
 arrays, keep lexemes with spaces whole

---
 pgsql/convert_util.go |  43 +++++----------
 pgsql/tsqueryarr.go   |  67 ++++--------------------
 pgsql/tsvectorarr.go  | 118 ++++++++----------------------------------
 3 files changed, 46 insertions(+), 182 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index e8a685d..2b6f049 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -615,8 +615,12 @@ func pgParseCommaArray(a []byte) (out [][]byte) {
 // Expected format: 'E[ ...]' (space separated list of elements).
 func pgParseVector(a []byte) (out [][]byte) {
 	var j int
+	var quoted bool
 	for i := 0; i < len(a); i++ {
-		if a[i] == ' ' {
+		if a[i] == '\'' { // start or end of quoted lexeme
+			quoted = !quoted
+		}
+		if a[i] == ' ' && !quoted {
 			out = append(out, a[j:i])
 			j = i + 1
 		}
@@ -633,38 +637,17 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 	if len(a) == 0 {
 		return out // nothing to do if empty
 	}
-	a = a[1 : len(a)-1] // drop array delimiters
 
-	for i := 0; i < len(a); i++ {
-		switch a[i] {
-		case ',': // element delimiter
+	for _, elem := range pgParseStringArray(a) {
+		if elem == nil { // NULL
+			out = append(out, [][]byte(nil))
 			continue
-		case '"': // quoted element
-			vector := [][]byte{}
-
-			k := i + 1 // item start
-			for i = k; i < len(a) && a[i] != '"'; i++ {
-				if a[i] == ' ' {
-					vector = append(vector, a[k:i])
-					k = i + 1
-				}
-			}
-			if k < i {
-				vector = append(vector, a[k:i])
-			}
-
-			out = append(out, vector)
-		default: // unquoted element
-			k := i // elem start
-			for i < len(a) && a[i] != ',' {
-				i++
-			}
-			if string(a[k:i]) == `NULL` {
-				out = append(out, [][]byte(nil))
-			} else {
-				out = append(out, [][]byte{a[k:i]})
-			}
 		}
+		vector := pgParseVector(elem)
+		if vector == nil {
+			vector = [][]byte{}
+		}
+		out = append(out, vector)
 	}
 
 	return out
diff --git a/pgsql/tsqueryarr.go b/pgsql/tsqueryarr.go
index 2b8d3e7..de72723 100644
--- a/pgsql/tsqueryarr.go
+++ b/pgsql/tsqueryarr.go
@@ -36,32 +36,14 @@ func (v tsQueryArrayFromStringSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
-	for i := 0; i < len(v.val); i++ {
-		size += len(v.val[i]) // length of the element
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
+	out := []byte{'{'}
 
-	var pos int
 	for i := 0; i < len(v.val); i++ {
-		pos += 1
-		out[pos] = '"'
-		pos += 1
-
-		length := len(v.val[i])
-		copy(out[pos:pos+length], v.val[i])
-		pos += length
-
-		out[pos] = '"'
-		pos += 1
-		out[pos] = ','
+		out = pgAppendQuote1(out, []byte(v.val[i]))
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -99,46 +81,19 @@ func (v tsQueryArrayFromByteSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 2 // len(`NULL`) - 2 double quotes
-		} else {
-			size += len(v.val[i]) // length of the element
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
+	out := []byte{'{'}
 
-	var pos int
 	for i := 0; i < len(v.val); i++ {
-		pos += 1
-
 		if v.val[i] == nil {
-			out[pos+0] = 'N'
-			out[pos+1] = 'U'
-			out[pos+2] = 'L'
-			out[pos+3] = 'L'
-			pos += 4
-		} else {
-			out[pos] = '"'
-			pos += 1
-
-			length := len(v.val[i])
-			copy(out[pos:pos+length], v.val[i])
-			pos += length
-
-			out[pos] = '"'
-			pos += 1
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
 		}
 
-		out[pos] = ','
+		out = pgAppendQuote1(out, v.val[i])
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -158,7 +113,7 @@ func (v tsQueryArrayToByteSliceSlice) Scan(src interface{}) error {
 	elems := pgParseStringArray(data)
 	bytess := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+		if elems[i] == nil { // NULL?
 			continue
 		}
 
diff --git a/pgsql/tsvectorarr.go b/pgsql/tsvectorarr.go
index fe117a0..c7bc228 100644
--- a/pgsql/tsvectorarr.go
+++ b/pgsql/tsvectorarr.go
@@ -36,63 +36,26 @@ func (v tsVectorArrayFromStringSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
-		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
+	out := []byte{'{'}
 
-	var pos int
 	for i := 0; i < len(v.val); i++ {
 		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
+			out = append(out, 'N', 'U', 'L', 'L', ',')
 			continue
 		}
 
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
-			continue
-		}
-
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
+		var vector []byte
+		for j := 0; j < len(v.val[i]); j++ {
+			if j > 0 {
+				vector = append(vector, ' ')
+			}
+			vector = append(vector, v.val[i][j]...)
 		}
-
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
+		out = pgAppendQuote1(out, vector)
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -142,63 +105,26 @@ func (v tsVectorArrayFromByteSliceSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
-		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
+	out := []byte{'{'}
 
-	var pos int
 	for i := 0; i < len(v.val); i++ {
 		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
+			out = append(out, 'N', 'U', 'L', 'L', ',')
 			continue
 		}
 
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
-			continue
-		}
-
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
+		var vector []byte
+		for j := 0; j < len(v.val[i]); j++ {
+			if j > 0 {
+				vector = append(vector, ' ')
+			}
+			vector = append(vector, v.val[i][j]...)
 		}
-
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
+		out = pgAppendQuote1(out, vector)
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
-- 
2.43.0


From 4d653cfbc5f70b38fae43dd21f7ff1aa7e0412be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 14/68] fix: scan NULL elements of box arrays without panicking

---
 pgsql/convert_util.go | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 2b6f049..849f83f 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -1,6 +1,7 @@
 package pgsql
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 	"time"
@@ -570,26 +571,15 @@ func pgParseBoxArray(a []byte) (out [][]byte) {
 		return out // nothing to do if empty "{}"
 	}
 
-	a = a[2 : len(a)-2] // drop the first "{(" and last ")}"
-
-	n := 0 // start of next elem
-	for i := 0; i < len(a); i++ {
-		if a[i] == ',' {
-			out = append(out, a[n:i])
-			n = i + 1
-		}
+	a = a[1 : len(a)-1] // drop the surrounding curlies
 
-		if a[i] == ')' {
-			out = append(out, a[n:i])
-			i += 2 // skip over ",(" or ";("
-			n = i + 1
+	for _, elem := range bytes.Split(a, []byte{';'}) {
+		if len(elem) > 0 && elem[0] == '(' {
+			out = append(out, pgParseBox(elem)...)
+		} else { // handle NULL
+			out = append(out, nil, nil, nil, nil)
 		}
 	}
-
-	// append the last element
-	if n > 0 {
-		out = append(out, a[n:])
-	}
 	return out
 }
 
-- 
2.43.0


From e6788030f9dcd673c49be95b5e4a4b99b575c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 15/68] fix: send nil addresses in arrays as NULL, keep the
 host part of inet networks and send maskless ones

---
 pgsql/cidrarr.go      |  4 ++++
 pgsql/convert_util.go | 21 +++++++++++++++++++++
 pgsql/inet.go         |  8 ++------
 pgsql/inetarr.go      | 16 ++++++++++------
 pgsql/macaddrarr.go   |  4 ++++
 5 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/pgsql/cidrarr.go b/pgsql/cidrarr.go
index 5830403..23305ce 100644
--- a/pgsql/cidrarr.go
+++ b/pgsql/cidrarr.go
@@ -30,6 +30,10 @@ func (v cidrArrayFromIPNetSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for i := 0; i < len(v.val); i++ {
+		if v.val[i].IP == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
 		out = append(out, []byte(v.val[i].String())...)
 		out = append(out, ',')
 	}
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 849f83f..10ea669 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/hex"
 	"fmt"
+	"net"
 	"time"
 	"unicode/utf8"
 )
@@ -740,3 +741,23 @@ func pgAppendQuote2(buf, elem []byte) []byte {
 	}
 	return append(buf, '\\', '"')
 }
+
+// pgAppendInet appends the inet text of the given network, one without a mask is a single host.
+func pgAppendInet(buf []byte, ipnet net.IPNet) []byte {
+	if ipnet.Mask == nil {
+		return append(buf, ipnet.IP.String()...)
+	}
+	return append(buf, ipnet.String()...)
+}
+
+// pgParseInet parses the text of an inet, it retains the host part of the address.
+func pgParseInet(s string) net.IPNet {
+	ip, ipnet, err := net.ParseCIDR(s)
+	if err != nil {
+		return net.IPNet{IP: net.ParseIP(s)}
+	}
+	if ip4 := ip.To4(); ip4 != nil && len(ipnet.Mask) == net.IPv4len {
+		ip = ip4
+	}
+	return net.IPNet{IP: ip, Mask: ipnet.Mask}
+}
diff --git a/pgsql/inet.go b/pgsql/inet.go
index f4ae042..8fc395f 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -34,7 +34,7 @@ func (v inetFromIPNet) Value() (driver.Value, error) {
 	if v.val.IP == nil && v.val.Mask == nil {
 		return nil, nil
 	}
-	return []byte(v.val.String()), nil
+	return pgAppendInet(nil, v.val), nil
 }
 
 type inetToIPNet struct {
@@ -52,11 +52,7 @@ func (v inetToIPNet) Scan(src interface{}) error {
 		return nil
 	}
 
-	_, ipnet, err := net.ParseCIDR(str)
-	if err != nil {
-		ipnet = &net.IPNet{IP: net.ParseIP(str)}
-	}
-	*v.val = *ipnet
+	*v.val = pgParseInet(str)
 	return nil
 }
 
diff --git a/pgsql/inetarr.go b/pgsql/inetarr.go
index c5f9478..70cae2e 100644
--- a/pgsql/inetarr.go
+++ b/pgsql/inetarr.go
@@ -40,7 +40,11 @@ func (v inetArrayFromIPNetSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ipnet := range v.val {
-		out = append(out, []byte(ipnet.String())...)
+		if ipnet.IP == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+		out = pgAppendInet(out, ipnet)
 		out = append(out, ',')
 	}
 
@@ -64,11 +68,7 @@ func (v inetArrayToIPNetSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	ipnets := make([]net.IPNet, len(elems))
 	for i := 0; i < len(elems); i++ {
-		_, ipnet, err := net.ParseCIDR(string(elems[i]))
-		if err != nil {
-			ipnet = &net.IPNet{IP: net.ParseIP(string(elems[i]))}
-		}
-		ipnets[i] = *ipnet
+		ipnets[i] = pgParseInet(string(elems[i]))
 	}
 
 	*v.val = ipnets
@@ -89,6 +89,10 @@ func (v inetArrayFromIPSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ip := range v.val {
+		if ip == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
 		out = append(out, []byte(ip.String())...)
 		out = append(out, ',')
 	}
diff --git a/pgsql/macaddrarr.go b/pgsql/macaddrarr.go
index 2a074c6..8b07882 100644
--- a/pgsql/macaddrarr.go
+++ b/pgsql/macaddrarr.go
@@ -30,6 +30,10 @@ func (v macAddrArrayFromHardwareAddrSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, mac := range v.val {
+		if mac == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
 		out = append(out, []byte(mac.String())...)
 		out = append(out, ',')
 	}
-- 
2.43.0


From 3bdaec532b18c85bbf3f3ecf7fea987f59ce73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:52 +0000
Subject: [PATCH 16/68] fix: convert money with integer arithmetic, accept
 signs and thousands separators

---
 pgsql/convert_util.go | 40 ++++++++++++++++++++++++++++++++++++++++
 pgsql/money.go        | 10 +++-------
 pgsql/moneyarr.go     | 11 ++++-------
 3 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 10ea669..9825818 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"fmt"
 	"net"
+	"strconv"
 	"time"
 	"unicode/utf8"
 )
@@ -761,3 +762,42 @@ func pgParseInet(s string) net.IPNet {
 	}
 	return net.IPNet{IP: ip, Mask: ipnet.Mask}
 }
+
+// pgAppendMoney appends the money text of the given number of cents.
+func pgAppendMoney(buf []byte, cents int64) []byte {
+	u64 := uint64(cents)
+	if cents < 0 {
+		u64 = -u64
+		buf = append(buf, '-')
+	}
+
+	digits := strconv.AppendUint(nil, u64, 10)
+	for len(digits) < 3 { // at least one digit before the point
+		digits = append([]byte{'0'}, digits...)
+	}
+
+	n := len(digits) - 2
+	buf = append(buf, '$')
+	buf = append(buf, digits[:n]...)
+	buf = append(buf, '.')
+	return append(buf, digits[n:]...)
+}
+
+// Expected format: '[-]$D[,DDD...].DD' where D is a digit.
+func pgParseMoney(a []byte) (cents int64, err error) {
+	digits := make([]byte, 0, len(a))
+	for i, c := range a {
+		switch {
+		case c >= '0' && c <= '9', c == '-' && i == 0:
+			digits = append(digits, c)
+		case c == '$', c == ',', c == '.' && i == len(a)-3:
+			// drop
+		default:
+			return 0, fmt.Errorf("pgsql: invalid money value %q", a)
+		}
+	}
+	if len(a) < 3 || a[len(a)-3] != '.' {
+		return 0, fmt.Errorf("pgsql: invalid money value %q", a)
+	}
+	return strconv.ParseInt(string(digits), 10, 64)
+}
diff --git a/pgsql/money.go b/pgsql/money.go
index ca05195..685ae46 100644
--- a/pgsql/money.go
+++ b/pgsql/money.go
@@ -3,7 +3,6 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
-	"strconv"
 )
 
 // MoneyFromInt64 returns a driver.Valuer that produces a PostgreSQL money from the given Go int64.
@@ -21,9 +20,7 @@ type moneyFromInt64 struct {
 }
 
 func (v moneyFromInt64) Value() (driver.Value, error) {
-	out := []byte{'$'}
-	out = strconv.AppendFloat(out, float64(v.val)/100.0, 'f', 2, 64)
-	return out, nil
+	return pgAppendMoney(nil, v.val), nil
 }
 
 type moneyToInt64 struct {
@@ -38,12 +35,11 @@ func (v moneyToInt64) Scan(src interface{}) error {
 		return nil
 	}
 
-	data = data[1:] // drop $
-	f64, err := strconv.ParseFloat(string(data), 64)
+	i64, err := pgParseMoney(data)
 	if err != nil {
 		return err
 	}
 
-	*v.val = int64(f64 * 100.0)
+	*v.val = i64
 	return nil
 }
diff --git a/pgsql/moneyarr.go b/pgsql/moneyarr.go
index ce857b2..048ccee 100644
--- a/pgsql/moneyarr.go
+++ b/pgsql/moneyarr.go
@@ -3,7 +3,6 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
-	"strconv"
 )
 
 // MoneyArrayFromInt64Slice returns a driver.Valuer that produces a PostgreSQL money[] from the given Go []int64.
@@ -35,8 +34,7 @@ func (v moneyArrayFromInt64Slice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for i := 0; i < len(v.val); i++ {
-		out = append(out, '$')
-		out = strconv.AppendFloat(out, float64(v.val[i])/100.0, 'f', 2, 64)
+		out = pgAppendMoney(out, v.val[i])
 		out = append(out, ',')
 	}
 
@@ -57,16 +55,15 @@ func (v moneyArrayToInt64Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseCommaArray(data)
+	elems := pgParseStringArray(data)
 	int64s := make([]int64, len(elems))
 	for i := 0; i < len(elems); i++ {
-		elems[i] = elems[i][1:] // drop $
-		f64, err := strconv.ParseFloat(string(elems[i]), 64)
+		i64, err := pgParseMoney(elems[i])
 		if err != nil {
 			return err
 		}
 
-		int64s[i] = int64(f64 * 100.0)
+		int64s[i] = i64
 	}
 
 	*v.val = int64s
-- 
2.43.0


From 86b1a18ef2033ccbd2ee259f5ed4afb72c1d89eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:41 +0000
Subject: [PATCH 17/68] fix: clear slices and maps when scanning NULL

---
 pgsql/daterangearr.go |  2 +-
 pgsql/hstore.go       |  3 +++
 pgsql/hstorearr.go    |  3 +++
 pgsql/inet.go         |  1 +
 pgsql/int4rangearr.go | 24 ++++++++++++------------
 pgsql/int8rangearr.go | 24 ++++++++++++------------
 pgsql/linearr.go      |  1 +
 pgsql/lsegarr.go      |  1 +
 pgsql/macaddr.go      |  1 +
 pgsql/numrangearr.go  | 24 ++++++++++++------------
 pgsql/pointarr.go     |  1 +
 pgsql/time.go         |  2 ++
 pgsql/timetz.go       |  2 ++
 13 files changed, 52 insertions(+), 37 deletions(-)

diff --git a/pgsql/daterangearr.go b/pgsql/daterangearr.go
index fe6d628..b8dac6f 100644
--- a/pgsql/daterangearr.go
+++ b/pgsql/daterangearr.go
@@ -59,7 +59,7 @@ func (v dateRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/hstore.go b/pgsql/hstore.go
index 4797905..225246d 100644
--- a/pgsql/hstore.go
+++ b/pgsql/hstore.go
@@ -68,6 +68,7 @@ func (v hstoreToStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -122,6 +123,7 @@ func (v hstoreToStringPtrMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -177,6 +179,7 @@ func (v hstoreToNullStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/hstorearr.go b/pgsql/hstorearr.go
index 3cd6860..2a1a943 100644
--- a/pgsql/hstorearr.go
+++ b/pgsql/hstorearr.go
@@ -98,6 +98,7 @@ func (v hstoreArrayToStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -201,6 +202,7 @@ func (v hstoreArrayToStringPtrMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -305,6 +307,7 @@ func (v hstoreArrayToNullStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/inet.go b/pgsql/inet.go
index 8fc395f..913b9a1 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -79,6 +79,7 @@ func (v inetToIP) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int4rangearr.go b/pgsql/int4rangearr.go
index 8732f6a..41d8679 100644
--- a/pgsql/int4rangearr.go
+++ b/pgsql/int4rangearr.go
@@ -160,7 +160,7 @@ func (v int4RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int4RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int4RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int4RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int4RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int4RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int4RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int4RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int4RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int4RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int4RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int4RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 416f928..538e7e1 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -160,7 +160,7 @@ func (v int8RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int8RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int8RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int8RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int8RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int8RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int8RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int8RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int8RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int8RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int8RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/linearr.go b/pgsql/linearr.go
index 5d8e7a0..1f13ae4 100644
--- a/pgsql/linearr.go
+++ b/pgsql/linearr.go
@@ -57,6 +57,7 @@ func (v lineArrayToFloat64Array3Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/lsegarr.go b/pgsql/lsegarr.go
index e7c5a0c..5e556b0 100644
--- a/pgsql/lsegarr.go
+++ b/pgsql/lsegarr.go
@@ -59,6 +59,7 @@ func (v lsegArrayToFloat64Array2Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/macaddr.go b/pgsql/macaddr.go
index 97d9ce3..a472120 100644
--- a/pgsql/macaddr.go
+++ b/pgsql/macaddr.go
@@ -39,6 +39,7 @@ func (v macAddrToHardwareAddr) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 81557f0..9f43001 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -160,7 +160,7 @@ func (v numRangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v numRangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v numRangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v numRangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v numRangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v numRangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v numRangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v numRangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v numRangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v numRangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/pointarr.go b/pgsql/pointarr.go
index 79aebda..961f867 100644
--- a/pgsql/pointarr.go
+++ b/pgsql/pointarr.go
@@ -55,6 +55,7 @@ func (v pointArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/time.go b/pgsql/time.go
index eab6d66..f0945de 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -43,6 +43,8 @@ func (v timeToByteSlice) Scan(src interface{}) error {
 		*v.val = data
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
 	}
 	return nil
 }
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 88cc3ea..59e7645 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -43,6 +43,8 @@ func (v timetzToByteSlice) Scan(src interface{}) error {
 		*v.val = data
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
 	}
 	return nil
 }
-- 
2.43.0


From 9cc01ce24e8049871e490184d5d19593137064fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 18/68] fix: do not retain the driver's buffer in time, timetz
 and empty interface targets

---
 pgsql/any.go    | 3 +++
 pgsql/time.go   | 2 +-
 pgsql/timetz.go | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pgsql/any.go b/pgsql/any.go
index ade61c8..d1b7d32 100644
--- a/pgsql/any.go
+++ b/pgsql/any.go
@@ -15,6 +15,9 @@ type anyToEmptyInterface struct {
 }
 
 func (v anyToEmptyInterface) Scan(src interface{}) error {
+	if data, ok := src.([]byte); ok && data != nil {
+		src = append([]byte{}, data...) // the driver owns the memory
+	}
 	*v.val = src
 	return nil
 }
diff --git a/pgsql/time.go b/pgsql/time.go
index f0945de..befc665 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -40,7 +40,7 @@ func (v timeToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timeLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...)
 	case string:
 		*v.val = []byte(data)
 	case nil:
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 59e7645..76e9b37 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -40,7 +40,7 @@ func (v timetzToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timetzLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...)
 	case string:
 		*v.val = []byte(data)
 	case nil:
-- 
2.43.0


From 81c197d610f51d583e71414085ca181c95afbad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 19/68] fix: keep the fractions of numeric range bounds held in
 floats

---
 pgsql/numrange.go    | 24 ++++++++++++------------
 pgsql/numrangearr.go | 24 ++++++++++++------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pgsql/numrange.go b/pgsql/numrange.go
index 407a48b..9c42ff6 100644
--- a/pgsql/numrange.go
+++ b/pgsql/numrange.go
@@ -562,9 +562,9 @@ type numRangeFromFloat32Array2 struct {
 
 func (v numRangeFromFloat32Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[0]), 'f', -1, 32)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[1]), 'f', -1, 32)
 	out = append(out, ')')
 	return out, nil
 }
@@ -581,15 +581,15 @@ func (v numRangeToFloat32Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 32); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 32); err != nil {
 			return err
 		}
 	}
@@ -605,9 +605,9 @@ type numRangeFromFloat64Array2 struct {
 
 func (v numRangeFromFloat64Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, v.val[0], 'f', -1, 64)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, v.val[1], 'f', -1, 64)
 	out = append(out, ')')
 	return out, nil
 }
@@ -624,20 +624,20 @@ func (v numRangeToFloat64Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 64); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 64); err != nil {
 			return err
 		}
 	}
 
-	v.val[0] = float64(lo)
-	v.val[1] = float64(hi)
+	v.val[0] = lo
+	v.val[1] = hi
 	return nil
 }
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 9f43001..c1a674b 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -771,9 +771,9 @@ func (v numRangeArrayFromFloat32Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, float64(a[0]), 'f', -1, 32)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, float64(a[1]), 'f', -1, 32)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -798,15 +798,15 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 32); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 32); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 32); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 32); err != nil {
 				return err
 			}
 		}
@@ -834,9 +834,9 @@ func (v numRangeArrayFromFloat64Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, a[0], 'f', -1, 64)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, a[1], 'f', -1, 64)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -861,21 +861,21 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 64); err != nil {
 				return err
 			}
 		}
 
-		ranges[i][0] = float64(lo)
-		ranges[i][1] = float64(hi)
+		ranges[i][0] = lo
+		ranges[i][1] = hi
 	}
 
 	*v.val = ranges
-- 
2.43.0


From a3ee1fc16d4a3b95bb4dc9fa899fac6cfa64ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 20/68] fix: keep microseconds and zone minutes, scan unbounded
 ts ranges in arrays

---
 pgsql/convert_util.go   | 21 +++++++++++++++++----
 pgsql/timestamptzarr.go |  2 +-
 pgsql/timetzarr.go      |  2 +-
 pgsql/tsrange.go        |  6 ++----
 pgsql/tsrangearr.go     | 18 ++++++++----------
 pgsql/tstzrange.go      | 10 ++++------
 pgsql/tstzrangearr.go   | 18 ++++++++----------
 7 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 9825818..b318dbf 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -12,10 +12,10 @@ import (
 
 const (
 	dateLayout        = "2006-01-02"
-	timeLayout        = "15:04:05.999"
-	timetzLayout      = "15:04:05.999-07:00"
-	timestampLayout   = "2006-01-02 15:04:05.999"
-	timestamptzLayout = "2006-01-02 15:04:05.999-07"
+	timeLayout        = "15:04:05.999999"
+	timetzLayout      = "15:04:05.999999-07:00"
+	timestampLayout   = "2006-01-02 15:04:05.999999"
+	timestamptzLayout = "2006-01-02 15:04:05.999999-07:00"
 )
 
 var noZone = time.FixedZone("", 0)
@@ -182,6 +182,19 @@ func pgparsedate(a []byte) (time.Time, error) {
 	return time.ParseInLocation(dateLayout, string(a), time.UTC)
 }
 
+// pgParseZoned parses a time with a zone offset; PostgreSQL leaves out the offset's minutes if they're zero.
+func pgParseZoned(layout string, a []byte, loc *time.Location) (time.Time, error) {
+	if len(a) > 2 && a[len(a)-3] != ':' {
+		layout = layout[:len(layout)-len(":00")]
+	}
+	return time.ParseInLocation(layout, string(a), loc)
+}
+
+// pgTrimBound drops the quotes, escaped in arrays, that surround a range bound.
+func pgTrimBound(a []byte) []byte {
+	return bytes.Trim(a, `\"`)
+}
+
 func pgParseRange(a []byte) (out [2][]byte) {
 	if len(a) < 2 {
 		return out // no range, i.e. a NULL array element
diff --git a/pgsql/timestamptzarr.go b/pgsql/timestamptzarr.go
index 7bd4dc3..0f13826 100644
--- a/pgsql/timestamptzarr.go
+++ b/pgsql/timestamptzarr.go
@@ -66,7 +66,7 @@ func (v timestamptzArrayToTimeSlice) Scan(src interface{}) error {
 		}
 
 		ts = ts[1 : len(ts)-1] // drop surrounding double quotes
-		t, err := time.Parse(timestamptzLayout, string(ts))
+		t, err := pgParseZoned(timestamptzLayout, ts, time.UTC)
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/timetzarr.go b/pgsql/timetzarr.go
index 101ac5e..5cece3d 100644
--- a/pgsql/timetzarr.go
+++ b/pgsql/timetzarr.go
@@ -57,7 +57,7 @@ func (v timetzArrayToTimeSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	times := make([]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
-		t, err := time.Parse(timetzLayout, string(elems[i]))
+		t, err := pgParseZoned(timetzLayout, elems[i], time.UTC)
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/tsrange.go b/pgsql/tsrange.go
index 3171c1b..cc91a39 100644
--- a/pgsql/tsrange.go
+++ b/pgsql/tsrange.go
@@ -49,15 +49,13 @@ func (v tsRangeToTimeArray2) Scan(src interface{}) error {
 	var lo, hi time.Time
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		s := elems[0]
-		s = s[1 : len(s)-1]
+		s := pgTrimBound(elems[0])
 		if lo, err = time.Parse(timestampLayout, string(s)); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		s := elems[1]
-		s = s[1 : len(s)-1]
+		s := pgTrimBound(elems[1])
 		if hi, err = time.Parse(timestampLayout, string(s)); err != nil {
 			return err
 		}
diff --git a/pgsql/tsrangearr.go b/pgsql/tsrangearr.go
index b6312fc..d72bb78 100644
--- a/pgsql/tsrangearr.go
+++ b/pgsql/tsrangearr.go
@@ -64,18 +64,16 @@ func (v tsRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	for i := 0; i < len(elems); i++ {
 		a := pgParseRange(elems[i])
 
-		// drop surrounding escaped double quotes
-		a[0] = a[0][2 : len(a[0])-2]
-		a[1] = a[1][2 : len(a[1])-2]
-
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestampLayout, string(a[0]), noZone)
-		if err != nil {
-			return err
+		if s := pgTrimBound(a[0]); len(s) > 0 {
+			if t0, err = time.ParseInLocation(timestampLayout, string(s), noZone); err != nil {
+				return err
+			}
 		}
-		t1, err = time.ParseInLocation(timestampLayout, string(a[1]), noZone)
-		if err != nil {
-			return err
+		if s := pgTrimBound(a[1]); len(s) > 0 {
+			if t1, err = time.ParseInLocation(timestampLayout, string(s), noZone); err != nil {
+				return err
+			}
 		}
 
 		slice[i][0] = t0
diff --git a/pgsql/tstzrange.go b/pgsql/tstzrange.go
index 6e6ac60..cf5ca4b 100644
--- a/pgsql/tstzrange.go
+++ b/pgsql/tstzrange.go
@@ -49,16 +49,14 @@ func (v tstzRangeToTimeArray2) Scan(src interface{}) error {
 	var lo, hi time.Time
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		s := elems[0]
-		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if lo, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		s := pgTrimBound(elems[0])
+		if lo, err = pgParseZoned(timestamptzLayout, s, time.UTC); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		s := elems[1]
-		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if hi, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		s := pgTrimBound(elems[1])
+		if hi, err = pgParseZoned(timestamptzLayout, s, time.UTC); err != nil {
 			return err
 		}
 	}
diff --git a/pgsql/tstzrangearr.go b/pgsql/tstzrangearr.go
index 04543f8..497441f 100644
--- a/pgsql/tstzrangearr.go
+++ b/pgsql/tstzrangearr.go
@@ -64,18 +64,16 @@ func (v tstzRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	for i := 0; i < len(elems); i++ {
 		a := pgParseRange(elems[i])
 
-		// drop surrounding escaped double quotes
-		a[0] = a[0][2 : len(a[0])-2]
-		a[1] = a[1][2 : len(a[1])-2]
-
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestamptzLayout, string(a[0]), noZone)
-		if err != nil {
-			return err
+		if s := pgTrimBound(a[0]); len(s) > 0 {
+			if t0, err = pgParseZoned(timestamptzLayout, s, noZone); err != nil {
+				return err
+			}
 		}
-		t1, err = time.ParseInLocation(timestamptzLayout, string(a[1]), noZone)
-		if err != nil {
-			return err
+		if s := pgTrimBound(a[1]); len(s) > 0 {
+			if t1, err = pgParseZoned(timestamptzLayout, s, noZone); err != nil {
+				return err
+			}
 		}
 
 		slice[i][0] = t0
-- 
2.43.0


From 8f126e348077b752fbfa0cfe2b44a71cc254f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 21/68] fix: keep filter conditions well formed

Empty groups and connectives with a missing operand no longer end up in
the SQL text, NULL and boolean values compared with an operator other
than = and <> are passed as parameters, a rejected FQL string leaves no
condition behind, the connective around a rule with an unknown key is
dropped together with the rule, and IN with an empty list is FALSE.
---
 filter/convenience.go |   5 ++
 filter/filter.go      | 118 ++++++++++++++++++++++++++++--------------
 2 files changed, 85 insertions(+), 38 deletions(-)

diff --git a/filter/convenience.go b/filter/convenience.go
index b323a6c..a47ebc4 100644
--- a/filter/convenience.go
+++ b/filter/convenience.go
@@ -14,6 +14,11 @@ type sqlIn[T any] struct {
 func (sqlIn[T]) canAndOr() bool { return true }
 
 func (n sqlIn[T]) write(w *sqlWriter) {
+	if len(n.vals) == 0 { // "IN ()" is not valid SQL
+		w.WriteString("FALSE")
+		return
+	}
+
 	w.WriteString(n.col)
 	w.WriteString(" IN (")
 	for i := range n.vals {
diff --git a/filter/filter.go b/filter/filter.go
index 2e21f61..f719142 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -203,36 +203,27 @@ func (c *Constructor) Col(column string, op string, value interface{}) {
 		if c.canAndOr() {
 			c.filter.where = append(c.filter.where, sqlAnd{})
 		}
+		c.filter.where = append(c.filter.where, colPredicate(column, op, value))
+	}
+}
+
+// colPredicate returns the predicate that compares the column with the value.
+func colPredicate(column, op string, value interface{}) sqlNode {
+	if op == "=" || op == "<>" {
+		pred := "IS "
+		if op == "<>" {
+			pred = "IS NOT "
+		}
 		switch value {
 		case nil:
-			switch op {
-			case "=":
-				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NULL"})
-			case "<>":
-				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT NULL"})
-			}
+			return sqlUnary{col: column, pred: pred + "NULL"}
 		case true:
-			switch op {
-			case "=":
-				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS TRUE"})
-			case "<>":
-				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT TRUE"})
-			}
+			return sqlUnary{col: column, pred: pred + "TRUE"}
 		case false:
-			switch op {
-			case "=":
-				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS FALSE"})
-			case "<>":
-				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT FALSE"})
-			}
-		default:
-			c.filter.where = append(c.filter.where, sqlBinary{
-				col: column,
-				op:  op,
-				val: value,
-			})
+			return sqlUnary{col: column, pred: pred + "FALSE"}
 		}
 	}
+	return sqlBinary{col: column, op: op, val: value}
 }
 
 // TextSearch prepares a new, text-search predicate for the WHERE clause.
@@ -251,14 +242,13 @@ func (c *Constructor) TextSearch(value string) {
 //
 // The And method implements part of the gosql.FilterConstructor interface.
 func (c *Constructor) And(nest func()) {
+	start := len(c.filter.where)
 	if c.canAndOr() {
 		c.filter.where = append(c.filter.where, sqlAnd{})
 	}
 
 	if nest != nil {
-		c.filter.where = append(c.filter.where, sqlLParen{})
-		nest()
-		c.filter.where = append(c.filter.where, sqlRParen{})
+		c.nest(start, nest)
 	}
 }
 
@@ -268,15 +258,50 @@ func (c *Constructor) And(nest func()) {
 //
 // The Or method implements part of the gosql.FilterConstructor interface.
 func (c *Constructor) Or(nest func()) {
+	start := len(c.filter.where)
 	if c.canAndOr() {
 		c.filter.where = append(c.filter.where, sqlOr{})
 	}
 
 	if nest != nil {
-		c.filter.where = append(c.filter.where, sqlLParen{})
-		nest()
-		c.filter.where = append(c.filter.where, sqlRParen{})
+		c.nest(start, nest)
+	}
+}
+
+// nest adds the result of the given function wrapped in parentheses, or,
+// if there is no result, it resets the WHERE clause to the given start.
+func (c *Constructor) nest(start int, nest func()) {
+	c.filter.where = append(c.filter.where, sqlLParen{})
+	inner := len(c.filter.where)
+	nest()
+	if c.trimAndOr(inner); len(c.filter.where) == inner {
+		c.filter.where = c.filter.where[:start]
+		return
+	}
+	c.filter.where = append(c.filter.where, sqlRParen{})
+}
+
+// trimAndOr removes the sqlAnd/sqlOr nodes, not including those
+// before start, that are not followed by another node.
+func (c *Constructor) trimAndOr(start int) {
+	c.filter.where = c.filter.where[:start+len(trimAndOr(c.filter.where[start:]))]
+}
+
+// trimAndOr returns the list without trailing sqlAnd/sqlOr nodes.
+func trimAndOr(list []sqlNode) []sqlNode {
+	for len(list) > 0 && isAndOr(list[len(list)-1]) {
+		list = list[:len(list)-1]
 	}
+	return list
+}
+
+// isAndOr reports whether or not the given node is an sqlAnd/sqlOr node.
+func isAndOr(n sqlNode) bool {
+	switch n.(type) {
+	case sqlAnd, sqlOr:
+		return true
+	}
+	return false
 }
 
 // OrderBy adds a new argument to the ORDER BY clause.
@@ -350,9 +375,17 @@ func (c *Constructor) Page(page int64) {
 // If the given string is not valid FQL an error will be returned. If the Constructor
 // is in strict mode and the column keys in the FQL do not have an entry in the
 // Constructor's colmap, the UnknownColumnKeyError will be returned.
-func (c *Constructor) UnmarshalFQL(str string) error {
+func (c *Constructor) UnmarshalFQL(str string) (err error) {
 	str = strings.Trim(str, ";,") // sanitize
 
+	start := len(c.filter.where)
+	defer func() {
+		if err != nil {
+			c.filter.where = c.filter.where[:start]
+		}
+		c.trimAndOr(start)
+	}()
+
 	z := fql.NewTokenizer(str)
 	for {
 		tok, err := z.Next()
@@ -370,11 +403,20 @@ func (c *Constructor) UnmarshalFQL(str string) error {
 			}
 			c.filter.where = append(c.filter.where, sqlLParen{})
 		case fql.RPAREN:
-			c.filter.where = append(c.filter.where, sqlRParen{})
+			c.trimAndOr(start)
+			if n := len(c.filter.where) - 1; c.filter.where[n] == (sqlLParen{}) {
+				c.filter.where = c.filter.where[:n] // nothing between the parentheses
+			} else {
+				c.filter.where = append(c.filter.where, sqlRParen{})
+			}
 		case fql.AND:
-			c.filter.where = append(c.filter.where, sqlAnd{})
+			if c.trimAndOr(start); c.canAndOr() {
+				c.filter.where = append(c.filter.where, sqlAnd{})
+			}
 		case fql.OR:
-			c.filter.where = append(c.filter.where, sqlOr{})
+			if c.trimAndOr(start); c.canAndOr() {
+				c.filter.where = append(c.filter.where, sqlOr{})
+			}
 		case fql.RULE:
 			rule := z.Rule()
 			if col, ok := c.colmap[rule.Key]; ok {
@@ -477,9 +519,9 @@ var (
 // The ToSQL method implements the gosql.Filter interface.
 func (f *filter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	w := sqlWriter{p: ppos}
-	if len(f.where) > 0 {
+	if where := trimAndOr(f.where); len(where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range where {
 			node.write(&w)
 		}
 	}
@@ -512,9 +554,9 @@ var (
 // ToSQL implements the gosql.Filter interface.
 func (f *countFilter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	w := sqlWriter{p: ppos}
-	if len(f.where) > 0 {
+	if where := trimAndOr(f.where); len(where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range where {
 			node.write(&w)
 		}
 	}
-- 
2.43.0


From a31d5025d391e87f4065f939f080b45673368c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 22/68] fix: take condition tags apart by their own offsets

The lowered copy of the expression was indexed with offsets of the original,
which differ for letters whose lower case has another encoded length; some
tags made the analysis panic.
---
 internal/analysis/analysis.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index f31d8fa..2451af6 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1845,7 +1845,7 @@ func parsePredicateExpr(expr string) (lhs, cop, qua, rhs string) {
 
 			var (
 				j     = i + 1
-				x     = strings.ToLower(expr)
+				x     = lowerASCII(expr) // same length as expr
 				pred1 string // 1st part of predicate (not | is)
 				pred2 string // 2nd part of predicate (distinct | true | null | ...)
 			)
@@ -1885,7 +1885,7 @@ func parsePredicateExpr(expr string) (lhs, cop, qua, rhs string) {
 	rhs = strings.TrimSpace(rhs)
 
 	if len(rhs) > 0 {
-		x := strings.ToLower(rhs)
+		x := lowerASCII(rhs)
 		switch x[0] {
 		case 'a': // ANY or ALL
 			n := len("any") // any and all have the same length so we test against both at the same time
@@ -2196,6 +2196,18 @@ func isColIdent(val string) bool {
 	return rxColIdent.MatchString(val) && !rxReserved.MatchString(val)
 }
 
+// lowerASCII converts the ASCII letters of the given string to lower case. Unlike
+// with strings.ToLower the result always has the same length as the input.
+func lowerASCII(s string) string {
+	b := []byte(s)
+	for i, c := range b {
+		if 'A' <= c && c <= 'Z' {
+			b[i] = c + ('a' - 'A')
+		}
+	}
+	return string(b)
+}
+
 // tolower normalizes the given string by converting it to lower case and
 // also trimming any extra white-space.
 func tolower(s string) string {
-- 
2.43.0


From 32e7897cec8310ed7f9092c04b73281362de17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 23/68] fix: accept empty field options, skip unexported fields
 behind pointers to imported structs

---
 internal/analysis/analysis.go  | 2 +-
 internal/analysis/fieldmode.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 2451af6..749fb52 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -574,7 +574,6 @@ stackloop:
 			if f.Type.Is(TypeKindStruct) && strings.HasPrefix(sqltag, ">") {
 				loop2 := new(loopstate)
 				loop2.styp = ftyp.(*types.Struct)
-				loop2.typ = &f.Type
 				loop2.pfx = loop.pfx + strings.TrimPrefix(sqltag, ">")
 
 				// Allocate selector of the appropriate size an copy it.
@@ -587,6 +586,7 @@ stackloop:
 				if typ.Kind == TypeKindPtr {
 					typ = *typ.Elem
 				}
+				loop2.typ = &typ
 
 				node := new(FieldSelectorNode)
 				node.Name = f.Name
diff --git a/internal/analysis/fieldmode.go b/internal/analysis/fieldmode.go
index 1fb9386..8ca143a 100644
--- a/internal/analysis/fieldmode.go
+++ b/internal/analysis/fieldmode.go
@@ -48,6 +48,9 @@ func parseFieldMode(t tagutil.Tag) (m FieldMode) {
 
 		////////////////////////////////////////////////////////////////
 		// handle new options
+		if len(opt) == 0 {
+			continue
+		}
 		switch opt[0] {
 		case '-':
 			for _, c := range opt[1:] {
-- 
2.43.0


From b02a2e997b6b47115b20ec4e1e49f37afeebce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 24/68] fix: look through type aliases and accept predeclared
 named types in records

---
 internal/analysis/analysis.go | 37 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 749fb52..e1b1fc7 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -436,7 +436,7 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		}
 	}()
 
-	ftyp := field.Type()
+	ftyp := types.Unalias(field.Type())
 	cacheKey := ftyp.String()
 	named, ok := ftyp.(*types.Named)
 	if ok {
@@ -470,15 +470,15 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	} else {
 		// If not an iterator, check for slices, arrays, and pointers.
 		if slice, ok := ftyp.(*types.Slice); ok { // allows []T / []*T
-			ftyp = slice.Elem()
+			ftyp = types.Unalias(slice.Elem())
 			rt.IsSlice = true
 		} else if array, ok := ftyp.(*types.Array); ok { // allows [N]T / [N]*T
-			ftyp = array.Elem()
+			ftyp = types.Unalias(array.Elem())
 			rt.IsArray = true
 			rt.ArrayLen = array.Len()
 		}
 		if ptr, ok := ftyp.(*types.Pointer); ok { // allows *T
-			ftyp = ptr.Elem()
+			ftyp = types.Unalias(ptr.Elem())
 			rt.IsPointer = true
 		}
 
@@ -493,11 +493,12 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	}
 
 	if named != nil {
-		pkg := named.Obj().Pkg()
 		rt.Base.Name = named.Obj().Name()
-		rt.Base.PkgPath = pkg.Path()
-		rt.Base.PkgName = pkg.Name()
-		rt.Base.PkgLocal = pkg.Name()
+		if pkg := named.Obj().Pkg(); pkg != nil { // nil for predeclared types
+			rt.Base.PkgPath = pkg.Path()
+			rt.Base.PkgName = pkg.Name()
+			rt.Base.PkgLocal = pkg.Name()
+		}
 		rt.Base.IsImported = isImportedType(a, named)
 		rt.IsAfterScanner = typesutil.ImplementsAfterScanner(named)
 		ftyp = named.Underlying()
@@ -645,14 +646,15 @@ stackloop:
 // pointer types it will analyze the element type of those types. The second return
 // value is the types.Type representation of the base element type of the given type.
 func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type) {
-	base = tt
+	base = types.Unalias(tt)
 
 	if named, ok := base.(*types.Named); ok {
-		pkg := named.Obj().Pkg()
 		typ.Name = named.Obj().Name()
-		typ.PkgPath = pkg.Path()
-		typ.PkgName = pkg.Name()
-		typ.PkgLocal = pkg.Name()
+		if pkg := named.Obj().Pkg(); pkg != nil { // nil for predeclared types
+			typ.PkgPath = pkg.Path()
+			typ.PkgName = pkg.Name()
+			typ.PkgLocal = pkg.Name()
+		}
 		typ.IsImported = isImportedType(a, named)
 		typ.IsScanner = typesutil.ImplementsScanner(named)
 		typ.IsValuer = typesutil.ImplementsValuer(named)
@@ -725,9 +727,9 @@ func analyzeIteratorFunction(a *analysis, rt *RelType, sig *types.Signature) (ou
 		return nil, false
 	}
 
-	typ := sig.Params().At(0).Type()
+	typ := types.Unalias(sig.Params().At(0).Type())
 	if ptr, ok := typ.(*types.Pointer); ok { // allows *T
-		typ = ptr.Elem()
+		typ = types.Unalias(ptr.Elem())
 		rt.IsPointer = true
 	}
 
@@ -2124,7 +2126,10 @@ func (cl *ColIdentList) Contains(cid ColIdent) bool {
 // isImportedType reports whether or not the given type is imported based on
 // on the package in which the target of the analysis is declared.
 func isImportedType(a *analysis, named *types.Named) bool {
-	return named != nil && named.Obj().Pkg().Path() != a.pkgPath
+	if named == nil || named.Obj().Pkg() == nil {
+		return false
+	}
+	return named.Obj().Pkg().Path() != a.pkgPath
 }
 
 // isAccessible reports whether or not the given value is accessible from
-- 
2.43.0


From 274cb8d37f0227af33aa3b61503f92aa9367a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 25/68] fix: keep cached record types apart by the analysing
 package, and cache only complete ones

---
 internal/analysis/analysis.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index e1b1fc7..c20774f 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -443,6 +443,8 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		ftyp = named.Underlying()
 		cacheKey = named.String()
 	}
+	// What is imported and accessible depends on the target's package.
+	cacheKey = a.pkgPath + ":" + cacheKey
 
 	relTypeCache.RLock()
 	v := relTypeCache.m[cacheKey]
@@ -502,10 +504,6 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 		rt.Base.IsImported = isImportedType(a, named)
 		rt.IsAfterScanner = typesutil.ImplementsAfterScanner(named)
 		ftyp = named.Underlying()
-
-		relTypeCache.Lock()
-		relTypeCache.m[cacheKey] = rt
-		relTypeCache.Unlock()
 	}
 
 	rt.Base.Kind = analyzeTypeKind(ftyp)
@@ -514,7 +512,16 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	}
 
 	styp := ftyp.(*types.Struct)
-	return analyzeFieldInfoList(a, rt, styp)
+	if err := analyzeFieldInfoList(a, rt, styp); err != nil {
+		return err
+	}
+
+	if named != nil {
+		relTypeCache.Lock()
+		relTypeCache.m[cacheKey] = rt
+		relTypeCache.Unlock()
+	}
+	return nil
 }
 
 // analyzeFieldInfoList
-- 
2.43.0


From 50f33aaad40ccd838022ba2e192a71617e60a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 26/68] fix: accept unqualified join conditions, reject range
 predicates between columns, skip blank where fields whole

---
 internal/analysis/analysis.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index c20774f..cda20a2 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -811,6 +811,12 @@ stackloop:
 				continue
 			}
 
+			// Of the blank fields only the gosql.Column directives
+			// and the nested fields are items.
+			if fvar.Name() == "_" && sqltag != ">" && !typesutil.IsDirective("Column", fvar.Type()) {
+				continue
+			}
+
 			// Analyze the bool operation for any but the first
 			// item in a WhereStruct. Fail if a value was provided
 			// but it is not "or" nor "and".
@@ -850,10 +856,6 @@ stackloop:
 
 			// Analyze directive where item.
 			if fvar.Name() == "_" {
-				if !typesutil.IsDirective("Column", fvar.Type()) {
-					continue
-				}
-
 				// If the expression in a gosql.Column tag's value
 				// contains a right-hand-side, it is expected to be
 				// either another column or a value-literal to which
@@ -883,6 +885,8 @@ stackloop:
 						return a.error(errIllegalUnaryPredicate, fvar, f.Name(), ftag, sqltag, op)
 					} else if item.Quantifier > 0 && !item.Predicate.CanQuantify() {
 						return a.error(errIllegalPredicateQuantifier, fvar, f.Name(), ftag, sqltag, op2)
+					} else if item.Predicate.IsRange() {
+						return a.error(errBadDirectiveBooleanExpr, fvar, f.Name(), ftag, "", sqltag)
 					}
 
 					a.info.FieldMap[item] = FieldVar{Var: fvar, Tag: ftag}
@@ -1166,8 +1170,8 @@ func analyzeJoinStructJoinDirective(a *analysis, j *JoinStruct, dirName string,
 			//
 			// TODO(mkopriva): Remove this limitation and properly handle the
 			// operands regardless of which side they are positioned in.
-			if len(cid.Qualifier) > 0 && (len(rid.Alias) > 0 && rid.Alias != cid.Qualifier) ||
-				(len(rid.Alias) == 0 && rid.Name != cid.Qualifier) {
+			if len(cid.Qualifier) > 0 && ((len(rid.Alias) > 0 && rid.Alias != cid.Qualifier) ||
+				(len(rid.Alias) == 0 && rid.Name != cid.Qualifier)) {
 				return a.error(errBadJoinConditionLHS, f, j.FieldName, ftag, val, lhs)
 			}
 
@@ -1192,6 +1196,8 @@ func analyzeJoinStructJoinDirective(a *analysis, j *JoinStruct, dirName string,
 					return a.error(errIllegalUnaryPredicate, f, j.FieldName, ftag, val, op)
 				} else if item.Quantifier > 0 && !item.Predicate.CanQuantify() {
 					return a.error(errIllegalPredicateQuantifier, f, j.FieldName, ftag, val, op2)
+				} else if item.Predicate.IsRange() {
+					return a.error(errBadDirectiveBooleanExpr, f, j.FieldName, ftag, "", val)
 				}
 			} else { // unary expression?
 
-- 
2.43.0


From 04e885ef48dfc9713157083a290742e254fde77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 27/68] fix: predeclared named types have no package path

---
 internal/typesutil/predicates.go | 12 ++++++------
 internal/typesutil/utils.go      | 11 ++++++++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index d23c295..d7b1d37 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -224,7 +224,7 @@ func IsFilterColumn(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 
 	if name != "Column" {
 		return false
@@ -248,7 +248,7 @@ func IsDirective(ident string, typ types.Type) bool {
 	}
 
 	// Compare the suffix only to allow for vendor imports.
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	if !strings.HasSuffix(path, "github.com/frk/gosql") {
 		return false
 	}
@@ -315,7 +315,7 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 		return false
 	}
 	name := argnamed.Obj().Name()
-	path := argnamed.Obj().Pkg().Path()
+	path := pkgPath(argnamed)
 	return strings.HasSuffix(path, "github.com/frk/gosql") && name == "ErrorInfo"
 }
 
@@ -710,7 +710,7 @@ func isxmlencoder(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	return name == "Encoder" && path == "encoding/xml"
 }
 
@@ -726,7 +726,7 @@ func isxmldecoder(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	return name == "Decoder" && path == "encoding/xml"
 }
 
@@ -738,6 +738,6 @@ func isxmlstartelem(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	return name == "StartElement" && path == "encoding/xml"
 }
diff --git a/internal/typesutil/utils.go b/internal/typesutil/utils.go
index 7435d1c..ce8d1e7 100644
--- a/internal/typesutil/utils.go
+++ b/internal/typesutil/utils.go
@@ -41,7 +41,7 @@ func GetDirectiveName(v *types.Var) string {
 		return ""
 	}
 
-	path := named.Obj().Pkg().Path()
+	path := pkgPath(named)
 	if !strings.HasSuffix(path, "github.com/frk/gosql") {
 		return ""
 	}
@@ -54,3 +54,12 @@ func GetDirectiveName(v *types.Var) string {
 	}
 	return named.Obj().Name()
 }
+
+// pkgPath returns the path of the package in which the given named type was
+// declared, or an empty string for the predeclared types like "error".
+func pkgPath(named *types.Named) string {
+	if pkg := named.Obj().Pkg(); pkg != nil {
+		return pkg.Path()
+	}
+	return ""
+}
-- 
2.43.0


From 7364bcc7c957b789080505412525c19d6b1364f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 28/68] fix: reject repeated clauses and order-by directives
 without columns

---
 internal/analysis/analysis.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index cda20a2..2fbf972 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1060,6 +1060,9 @@ func analyzeJoinStruct(a *analysis, f *types.Var, tag string) (err error) {
 	} else if fname == "using" && a.query.Kind != QueryKindDelete {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Join != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	ns, err := typesutil.GetStruct(f)
 	if err != nil {
@@ -1249,6 +1252,9 @@ func analyzeOnConflictStruct(a *analysis, f *types.Var, tag string) (err error)
 	if a.query.Kind != QueryKindInsert {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.OnConflict != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 	ns, err := typesutil.GetStruct(f)
 	if err != nil {
 		return a.error(errBadFieldTypeStruct, f, "", tag, "", "")
@@ -1572,6 +1578,9 @@ func analyzeOrderByDirective(a *analysis, f *types.Var, tag string) (err error)
 	if !a.query.Kind.isSelect() {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.OrderBy != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	tags := tagutil.New(tag)["sql"]
 	if len(tags) == 0 {
@@ -1609,6 +1618,9 @@ func analyzeOrderByDirective(a *analysis, f *types.Var, tag string) (err error)
 		item.ColIdent = cid
 		items = append(items, item)
 	}
+	if len(items) == 0 {
+		return a.error(errMissingTagColumnList, f, "", tag, "", "")
+	}
 
 	a.query.OrderBy = new(OrderByDirective)
 	a.query.OrderBy.Items = items
@@ -1621,6 +1633,9 @@ func analyzeOverrideDirective(a *analysis, f *types.Var, tag string) (err error)
 	if a.query.Kind != QueryKindInsert {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Override != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	var kind OverridingKind
 	switch val := tolower(tagutil.New(tag).First("sql")); val {
@@ -1688,6 +1703,9 @@ func analyzeDefaultDirective(a *analysis, f *types.Var, tag string) error {
 	if a.query.Kind != QueryKindInsert && a.query.Kind != QueryKindUpdate {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Default != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	t := tagutil.New(tag)
 	list, ecode, eval := parseColIdentList(a, t["sql"])
@@ -1706,6 +1724,9 @@ func analyzeForceDirective(a *analysis, f *types.Var, tag string) error {
 		// TODO test
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Force != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	t := tagutil.New(tag)
 	list, ecode, eval := parseColIdentList(a, t["sql"])
@@ -1732,6 +1753,9 @@ func analyzeOptionalDirective(a *analysis, f *types.Var, tag string) error {
 	if !a.query.Kind.isSelect() {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.Optional != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 
 	t := tagutil.New(tag)
 	list, ecode, eval := parseColIdentList(a, t["sql"])
@@ -1755,6 +1779,10 @@ func analyzeOptionalDirective(a *analysis, f *types.Var, tag string) error {
 // analyzeTextSearchDirective analyzes the given field and its tag as the gosql.TextSearch
 // directive and sets the result to the given analysis' filter.
 func analyzeTextSearchDirective(a *analysis, f *types.Var, tag string) error {
+	if a.filter.TextSearch != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
+
 	tval := tagutil.New(tag).First("sql")
 	tval = strings.ToLower(strings.TrimSpace(tval))
 
-- 
2.43.0


From 93845720521b63b13fdb4b5fa0aee92c7620e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 29/68] fix: recognise interfaces implemented by promoted
 methods and by interface types

---
 internal/typesutil/predicates.go | 67 ++++++++++++++------------------
 1 file changed, 29 insertions(+), 38 deletions(-)

diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index d7b1d37..959ddb6 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -261,8 +261,8 @@ func IsDirective(ident string, typ types.Type) bool {
 // implements the "gosql.AfterScanner" interface.
 func ImplementsAfterScanner(named *types.Named) bool {
 	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "AfterScan" {
+	for i, mm := 0, methodsOf(named); i < mm.NumMethods(); i++ {
+		if m := mm.Method(i); m.Name() == "AfterScan" {
 			sig = m.Type().(*types.Signature)
 			break
 		}
@@ -274,8 +274,8 @@ func ImplementsAfterScanner(named *types.Named) bool {
 // implements the "gosql.ErrorHandler" interface.
 func ImplementsErrorHandler(named *types.Named) bool {
 	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleError" {
+	for i, mm := 0, methodsOf(named); i < mm.NumMethods(); i++ {
+		if m := mm.Method(i); m.Name() == "HandleError" {
 			sig = m.Type().(*types.Signature)
 			break
 		}
@@ -291,8 +291,8 @@ func ImplementsErrorHandler(named *types.Named) bool {
 // implements the "gosql.ErrorInfoHandler" interface.
 func ImplementsErrorInfoHandler(named *types.Named) bool {
 	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleErrorInfo" {
+	for i, mm := 0, methodsOf(named); i < mm.NumMethods(); i++ {
+		if m := mm.Method(i); m.Name() == "HandleErrorInfo" {
 			sig = m.Type().(*types.Signature)
 			break
 		}
@@ -321,10 +321,7 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 
 // ImplementsGosqlConn reports whether or not the given named type implements the "gosql.Conn" interface.
 func ImplementsGosqlConn(named *types.Named) bool {
-	mm := Methoder(named)
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		mm = iface
-	}
+	mm := methodsOf(named)
 
 	var hasExec, hasQuery, hasQueryRow bool
 	var hasExecContext, hasQueryContext, hasQueryRowContext bool
@@ -425,10 +422,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 		return false
 	}
 
-	mm := Methoder(named)
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		mm = iface
-	}
+	mm := methodsOf(named)
 
 	var hasInit, hasInitV2, hasCol, hasAnd, hasOr bool
 
@@ -498,10 +492,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 // interface type, ImplementsScanner will report whether or not that interface
 // type declares, or embeds, the "Scan(interface{}) error" method.
 func ImplementsScanner(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsScanner(iface)
-	}
-	return IsScanner(named)
+	return IsScanner(methodsOf(named))
 }
 
 // IsScanner reports whether or not the given Methoder type declares,
@@ -529,10 +520,7 @@ func IsScanner(mm Methoder) bool {
 // an interface type, ImplementsValuer will report whether or not that interface
 // type declares, or embeds, the "Value() (driver.Value, error)" method.
 func ImplementsValuer(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsValuer(iface)
-	}
-	return IsValuer(named)
+	return IsValuer(methodsOf(named))
 }
 
 // IsValuer reports whether or not the given Methoder type declares,
@@ -560,10 +548,7 @@ func IsValuer(mm Methoder) bool {
 // is an interface type, ImplementsJSONMarshaler will report whether or not that
 // interface type declares, or embeds, the "MarshalJSON() ([]byte, error)" method.
 func ImplementsJSONMarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsJSONMarshaler(iface)
-	}
-	return IsJSONMarshaler(named)
+	return IsJSONMarshaler(methodsOf(named))
 }
 
 // IsJSONMarshaler reports whether or not the given Methoder type declares,
@@ -591,10 +576,7 @@ func IsJSONMarshaler(mm Methoder) bool {
 // is an interface type, ImplementsJSONUnmarshaler will report whether or not that
 // interface type declares, or embeds, the "UnmarshalJSON([]byte) (error)" method.
 func ImplementsJSONUnmarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsJSONUnmarshaler(iface)
-	}
-	return IsJSONUnmarshaler(named)
+	return IsJSONUnmarshaler(methodsOf(named))
 }
 
 // IsJSONUnmarshaler reports whether or not the given Methoder type declares,
@@ -622,10 +604,7 @@ func IsJSONUnmarshaler(mm Methoder) bool {
 // type, ImplementsXMLMarshaler will report whether or not that interface type declares,
 // or embeds, the "MarshalXML(*xml.Encoder, xml.StartElement) (error)" method.
 func ImplementsXMLMarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsXMLMarshaler(iface)
-	}
-	return IsXMLMarshaler(named)
+	return IsXMLMarshaler(methodsOf(named))
 }
 
 // IsXMLMarshaler reports whether or not the given Methoder type declares,
@@ -654,10 +633,7 @@ func IsXMLMarshaler(mm Methoder) bool {
 // type, ImplementsXMLUnmarshaler will report whether or not that interface type declares,
 // or embeds, the "UnmarshalXML(*xml.Decoder, xml.StartElement) (error)" method.
 func ImplementsXMLUnmarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsXMLUnmarshaler(iface)
-	}
-	return IsXMLUnmarshaler(named)
+	return IsXMLUnmarshaler(methodsOf(named))
 }
 
 // IsXMLUnmarshaler reports whether or not the given Methoder type declares,
@@ -688,6 +664,21 @@ type Methoder interface {
 	Method(i int) *types.Func
 }
 
+// methodSet implements Methoder for types.MethodSet.
+type methodSet struct{ *types.MethodSet }
+
+func (s methodSet) NumMethods() int          { return s.Len() }
+func (s methodSet) Method(i int) *types.Func { return s.At(i).Obj().(*types.Func) }
+
+// methodsOf returns the methods of the given named type, including the methods
+// of its pointer type and the methods promoted from embedded fields.
+func methodsOf(named *types.Named) Methoder {
+	if iface, ok := named.Underlying().(*types.Interface); ok {
+		return iface
+	}
+	return methodSet{types.NewMethodSet(types.NewPointer(named))}
+}
+
 // isbyteslice reports whether or not the given type is a []byte type.
 func isbyteslice(t types.Type) bool {
 	if s, ok := t.(*types.Slice); ok {
-- 
2.43.0


From a8a04ec919b9294449071dfdd0ea436e358274bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 30/68] fix: see through aliases when recognising types and
 interfaces

---
 internal/typesutil/predicates.go | 72 ++++++++++++++------------------
 internal/typesutil/utils.go      |  4 +-
 2 files changed, 33 insertions(+), 43 deletions(-)

diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index 959ddb6..8b20c24 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -7,7 +7,7 @@ import (
 
 // IsString reports whether or not the given type is the builtin "string" type.
 func IsString(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -16,14 +16,14 @@ func IsString(typ types.Type) bool {
 
 // IsStringMap reports whether or not the given type is the "map[string]string" type.
 func IsStringMap(typ types.Type) bool {
-	m, ok := typ.(*types.Map)
+	m, ok := types.Unalias(typ).(*types.Map)
 	if !ok {
 		return false
 	}
-	if k, ok := m.Key().(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
+	if k, ok := types.Unalias(m.Key()).(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
 		return false
 	}
-	if e, ok := m.Elem().(*types.Basic); !ok || e.Kind() != types.String || e.Name() != "string" {
+	if e, ok := types.Unalias(m.Elem()).(*types.Basic); !ok || e.Kind() != types.String || e.Name() != "string" {
 		return false
 	}
 	return true
@@ -31,11 +31,11 @@ func IsStringMap(typ types.Type) bool {
 
 // IsStringColumnMap reports whether or not the given type is the "map[string]filter.Column" type.
 func IsStringColumnMap(typ types.Type) bool {
-	m, ok := typ.(*types.Map)
+	m, ok := types.Unalias(typ).(*types.Map)
 	if !ok {
 		return false
 	}
-	if k, ok := m.Key().(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
+	if k, ok := types.Unalias(m.Key()).(*types.Basic); !ok || k.Kind() != types.String || k.Name() != "string" {
 		return false
 	}
 	if !IsFilterColumn(m.Elem()) {
@@ -46,7 +46,7 @@ func IsStringColumnMap(typ types.Type) bool {
 
 // IsNiladicFunc reports whether or not the given type is the "func()" type.
 func IsNiladicFunc(typ types.Type) bool {
-	sig, ok := typ.(*types.Signature)
+	sig, ok := types.Unalias(typ).(*types.Signature)
 	if !ok {
 		return false
 	}
@@ -55,7 +55,7 @@ func IsNiladicFunc(typ types.Type) bool {
 
 // IsError reports whether or not the given type is the "error" type.
 func IsError(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -66,17 +66,7 @@ func IsError(typ types.Type) bool {
 
 // IsEmptyInterface reports whether or not the given type is the "interface{}" type.
 func IsEmptyInterface(typ types.Type) bool {
-	// handle builtin "any" alias
-	if alias, ok := typ.(*types.Alias); ok {
-		pkg := alias.Obj().Pkg()
-		name := alias.Obj().Name()
-		if name != "any" || pkg != nil {
-			return false
-		}
-		typ = alias.Underlying()
-	}
-
-	iface, ok := typ.(*types.Interface)
+	iface, ok := types.Unalias(typ).(*types.Interface)
 	if !ok {
 		return false
 	}
@@ -85,7 +75,7 @@ func IsEmptyInterface(typ types.Type) bool {
 
 // IsEmptyInterfaceSlice reports whether or not the given type is the "[]interface{}" type.
 func IsEmptyInterfaceSlice(typ types.Type) bool {
-	if s, ok := typ.(*types.Slice); ok {
+	if s, ok := types.Unalias(typ).(*types.Slice); ok {
 		return IsEmptyInterface(s.Elem())
 	}
 	return false
@@ -93,7 +83,7 @@ func IsEmptyInterfaceSlice(typ types.Type) bool {
 
 // IsContext reports whether or not the given type is the standard "context.Context" type.
 func IsContext(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -111,7 +101,7 @@ func IsContext(typ types.Type) bool {
 // IsTime returns true also for types that embed "time.Time" directly, this
 // is to provide support for custom timestamp types.
 func IsTime(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -128,7 +118,7 @@ func IsTime(typ types.Type) bool {
 	if S, ok := named.Underlying().(*types.Struct); ok {
 		for i := 0; i < S.NumFields(); i++ {
 			f := S.Field(i)
-			named, ok := f.Type().(*types.Named)
+			named, ok := types.Unalias(f.Type()).(*types.Named)
 			if ok && f.Anonymous() {
 				typeName := named.Obj()
 				if pkg := typeName.Pkg(); pkg != nil {
@@ -146,7 +136,7 @@ func IsTime(typ types.Type) bool {
 
 // IsSqlResult reports whether or not the given type is the standard "sql.Result" type.
 func IsSqlResult(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -162,11 +152,11 @@ func IsSqlResult(typ types.Type) bool {
 
 // IsSqlRowsPtr reports whether or not the given type is the standard "*sql.Rows" type.
 func IsSqlRowsPtr(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -182,11 +172,11 @@ func IsSqlRowsPtr(typ types.Type) bool {
 
 // IsSqlRowPtr reports whether or not the given type is the standard "*sql.Row" type.
 func IsSqlRowPtr(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -202,7 +192,7 @@ func IsSqlRowPtr(typ types.Type) bool {
 
 // IsSqlDriverValue reports whether or not the given type is the "database/sql/driver.Value" type.
 func IsSqlDriverValue(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -218,7 +208,7 @@ func IsSqlDriverValue(typ types.Type) bool {
 
 // IsFilterColumn reports whether or not the given type is the "github.com/frk/gosql/filter.Column" type.
 func IsFilterColumn(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -238,7 +228,7 @@ func IsFilterColumn(typ types.Type) bool {
 
 // IsDirective reports whether or not the given type is a "github.com/frk/gosql" directive type.
 func IsDirective(ident string, typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -306,11 +296,11 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 
 	// check that the method's argument is of type *gosql.ErrorInfo
 	argtyp := sig.Params().At(0).Type()
-	argptr, ok := argtyp.(*types.Pointer)
+	argptr, ok := types.Unalias(argtyp).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	argnamed, ok := argptr.Elem().(*types.Named)
+	argnamed, ok := types.Unalias(argptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -417,7 +407,7 @@ func ImplementsGosqlConn(named *types.Named) bool {
 // ImplementsGosqlFilterConstructor reports whether or not the given named
 // type implements the "gosql.FilterConstructor" interface.
 func ImplementsGosqlFilterConstructor(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -681,8 +671,8 @@ func methodsOf(named *types.Named) Methoder {
 
 // isbyteslice reports whether or not the given type is a []byte type.
 func isbyteslice(t types.Type) bool {
-	if s, ok := t.(*types.Slice); ok {
-		if e, ok := s.Elem().(*types.Basic); ok && e.Kind() == types.Byte {
+	if s, ok := types.Unalias(t).(*types.Slice); ok {
+		if e, ok := types.Unalias(s.Elem()).(*types.Basic); ok && e.Kind() == types.Byte {
 			return true
 		}
 	}
@@ -691,11 +681,11 @@ func isbyteslice(t types.Type) bool {
 
 // isxmlencoder reports whether or not the given type is an *encoding/xml.Encoder type.
 func isxmlencoder(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -707,11 +697,11 @@ func isxmlencoder(typ types.Type) bool {
 
 // isxmldecoder reports whether or not the given type is a *encoding/xml.Decoder type.
 func isxmldecoder(typ types.Type) bool {
-	ptr, ok := typ.(*types.Pointer)
+	ptr, ok := types.Unalias(typ).(*types.Pointer)
 	if !ok {
 		return false
 	}
-	named, ok := ptr.Elem().(*types.Named)
+	named, ok := types.Unalias(ptr.Elem()).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -723,7 +713,7 @@ func isxmldecoder(typ types.Type) bool {
 
 // isxmlstartelem reports whether or not the given type is a encoding/xml.StartElement type.
 func isxmlstartelem(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
diff --git a/internal/typesutil/utils.go b/internal/typesutil/utils.go
index ce8d1e7..cc47b64 100644
--- a/internal/typesutil/utils.go
+++ b/internal/typesutil/utils.go
@@ -19,7 +19,7 @@ type NamedStruct struct {
 // type is not a struct then GetStruct will return an error.
 func GetStruct(v *types.Var) (*NamedStruct, error) {
 	ns := new(NamedStruct)
-	typ := v.Type()
+	typ := types.Unalias(v.Type())
 
 	var ok bool
 	if ns.Named, ok = typ.(*types.Named); ok {
@@ -36,7 +36,7 @@ func GetStruct(v *types.Var) (*NamedStruct, error) {
 // variable. If the type of the given variable is not a directive an empty
 // string will be returned instead.
 func GetDirectiveName(v *types.Var) string {
-	named, ok := v.Type().(*types.Named)
+	named, ok := types.Unalias(v.Type()).(*types.Named)
 	if !ok {
 		return ""
 	}
-- 
2.43.0


From 12716194ea08d77142bc6a713dc5b6338e086590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 31/68] fix: accept filter constructors that have the methods
 of gosql.FilterConstructor only

---
 internal/typesutil/predicates.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index 8b20c24..77bbeaf 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -414,7 +414,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 
 	mm := methodsOf(named)
 
-	var hasInit, hasInitV2, hasCol, hasAnd, hasOr bool
+	var hasInit, hasCol, hasAnd, hasOr bool
 
 	for i := 0; i < mm.NumMethods(); i++ {
 		m := mm.Method(i)
@@ -429,7 +429,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 				return false
 			}
 			hasInit = true
-		case "InitV2": // InitV2(colmap map[string]filter.Column, tscol string)
+		case "InitV2": // optional, InitV2(colmap map[string]filter.Column, tscol string)
 			sig := m.Type().(*types.Signature)
 			p, r := sig.Params(), sig.Results()
 			if p.Len() != 2 || r.Len() != 0 {
@@ -438,7 +438,6 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 			if !IsStringColumnMap(p.At(0).Type()) || !IsString(p.At(1).Type()) {
 				return false
 			}
-			hasInitV2 = true
 		case "Col": // Col(column string, op string, value interface{})
 			sig := m.Type().(*types.Signature)
 			p, r := sig.Params(), sig.Results()
@@ -474,7 +473,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 		}
 	}
 
-	return hasInit && hasInitV2 && hasCol && hasAnd && hasOr
+	return hasInit && hasCol && hasAnd && hasOr
 }
 
 // ImplementsScanner reports whether or not the given named type implements the
-- 
2.43.0


From e8ec8a8aa914ceb83f4f6f288ec1cb822b6d84c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 32/68] fix: see through aliases of limits, counts, handlers
 and filters

---
 internal/analysis/analysis.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 2fbf972..488b128 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1557,7 +1557,7 @@ func analyzeRowsAffectedField(a *analysis, f *types.Var, tag string) error {
 		return a.error(errConflictingResultTarget, f, "", tag, "", "")
 	}
 
-	ftyp := f.Type()
+	ftyp := types.Unalias(f.Type())
 	if !isIntegerType(ftyp) {
 		return a.error(errBadFieldTypeInt, f, "", tag, "", "")
 	}
@@ -2187,7 +2187,7 @@ type exportable interface {
 
 // isIntegerType reports whether or not the given type is one of the basic (un)signed integer types.
 func isIntegerType(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -2197,7 +2197,7 @@ func isIntegerType(typ types.Type) bool {
 
 // isBoolType reports whether or not the given type is a boolean.
 func isBoolType(typ types.Type) bool {
-	basic, ok := typ.(*types.Basic)
+	basic, ok := types.Unalias(typ).(*types.Basic)
 	if !ok {
 		return false
 	}
@@ -2206,7 +2206,7 @@ func isBoolType(typ types.Type) bool {
 
 // isErrorHandler reports whether or not the given type implements the gosql.ErrorHandler interface.
 func isErrorHandler(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -2215,7 +2215,7 @@ func isErrorHandler(typ types.Type) bool {
 
 // isErrorInfoHandler reports whether or not the given type implements the gosql.ErrorInfoHandler interface.
 func isErrorInfoHandler(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
@@ -2224,7 +2224,7 @@ func isErrorInfoHandler(typ types.Type) bool {
 
 // isFilterType reports whether or not the given type is the gosql.Filter type.
 func isFilterType(typ types.Type) bool {
-	named, ok := typ.(*types.Named)
+	named, ok := types.Unalias(typ).(*types.Named)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From e9067c56dea346ca6094520d6d6c185fc749e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 33/68] fix: do not recurse forever into types and structs that
 contain themselves

---
 internal/analysis/analysis.go | 36 ++++++++++++++++++++++++-----------
 internal/analysis/error.go    |  7 +++++++
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 488b128..09c7aed 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -582,6 +582,11 @@ stackloop:
 			if f.Type.Is(TypeKindStruct) && strings.HasPrefix(sqltag, ">") {
 				loop2 := new(loopstate)
 				loop2.styp = ftyp.(*types.Struct)
+				for _, l := range stack {
+					if l.styp == loop2.styp {
+						return a.error(errRecursiveFieldStruct, fvar, "", ftag, "", "")
+					}
+				}
 				loop2.pfx = loop.pfx + strings.TrimPrefix(sqltag, ">")
 
 				// Allocate selector of the appropriate size an copy it.
@@ -653,9 +658,24 @@ stackloop:
 // pointer types it will analyze the element type of those types. The second return
 // value is the types.Type representation of the base element type of the given type.
 func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type) {
+	t, base := analyzeElemTypeInfo(a, tt, make(map[*types.Named]*TypeInfo))
+	return *t, base
+}
+
+// analyzeElemTypeInfo does the work of analyzeTypeInfo. The seen argument holds
+// the named types under analysis; a type that refers to itself yields a TypeInfo
+// that does so as well.
+func analyzeElemTypeInfo(a *analysis, tt types.Type, seen map[*types.Named]*TypeInfo) (typ *TypeInfo, base types.Type) {
 	base = types.Unalias(tt)
+	typ = new(TypeInfo)
 
 	if named, ok := base.(*types.Named); ok {
+		if t, ok := seen[named]; ok {
+			return t, named.Underlying()
+		}
+		seen[named] = typ
+		defer delete(seen, named)
+
 		typ.Name = named.Obj().Name()
 		if pkg := named.Obj().Pkg(); pkg != nil { // nil for predeclared types
 			typ.PkgPath = pkg.Path()
@@ -674,26 +694,20 @@ func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type)
 
 	typ.Kind = analyzeTypeKind(base)
 
-	var elem TypeInfo // element info
 	switch T := base.(type) {
 	case *types.Basic:
 		typ.IsRune = T.Name() == "rune"
 		typ.IsByte = T.Name() == "byte"
 	case *types.Slice:
-		elem, base = analyzeTypeInfo(a, T.Elem())
-		typ.Elem = &elem
+		typ.Elem, base = analyzeElemTypeInfo(a, T.Elem(), seen)
 	case *types.Array:
-		elem, base = analyzeTypeInfo(a, T.Elem())
-		typ.Elem = &elem
+		typ.Elem, base = analyzeElemTypeInfo(a, T.Elem(), seen)
 		typ.ArrayLen = T.Len()
 	case *types.Map:
-		key, _ := analyzeTypeInfo(a, T.Key())
-		elem, base = analyzeTypeInfo(a, T.Elem())
-		typ.Key = &key
-		typ.Elem = &elem
+		typ.Key, _ = analyzeElemTypeInfo(a, T.Key(), seen)
+		typ.Elem, base = analyzeElemTypeInfo(a, T.Elem(), seen)
 	case *types.Pointer:
-		elem, base = analyzeTypeInfo(a, T.Elem())
-		typ.Elem = &elem
+		typ.Elem, base = analyzeElemTypeInfo(a, T.Elem(), seen)
 	case *types.Interface:
 		typ.IsEmptyInterface = typesutil.IsEmptyInterface(T)
 		// If base is an unnamed interface type check at least whether
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 20334a3..f00b154 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -221,6 +221,7 @@ const (
 	errMissingTagColumnList
 	errMissingOnConflictTarget
 	errMissingFilterConstructor
+	errRecursiveFieldStruct
 	errBadIdentTagValue
 	errBadColIdTagValue
 	errBadRelIdTagValue
@@ -436,6 +437,12 @@ var error_template_string = `
     {{Wb "FIX:"}} Make sure that the {{R .TargetName}} struct type has {{Wu "exactly one"}} field that implements the "gosql.FilterConstructor" interface.
 {{ end }}
 
+{{ define "` + errRecursiveFieldStruct.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Recursive struct field."}}
+    The struct type of the {{R .FieldName}} field contains itself and therefore its fields cannot be listed as columns.
+    {{Wb "FIX:"}} Change the {{R .FieldName}} field's type, or remove the {{R ">"}} marker from its "sql" tag.
+{{ end }}
+
 {{ define "` + errBadIdentTagValue.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Bad identifier value in tag."}}
     The "sql" tag value {{R .TagValueSqlFirst}} in {{R .FieldDefinition}} from {{Wb .TargetName}} is an invalid {{Wi "identifier"}}.
-- 
2.43.0


From 91e600f2c7a7bbc9c86bfee73f4d105470219d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 34/68] fix: extract index expressions from definitions with
 quotes, and match conflict columns to indexes in both directions

---
 internal/postgres/errors.go   |  7 +++
 internal/postgres/postgres.go | 83 +++++++++++++++--------------------
 2 files changed, 42 insertions(+), 48 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index adf1e1b..d73156a 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -67,6 +67,7 @@ const (
 	errOnConflictIndexColumnsNotUnique
 	errOnConflictConstraintUnknown
 	errOnConflictConstraintNotUnique
+	errOnConflictActionMissing
 )
 
 type dbError struct {
@@ -589,6 +590,12 @@ On Conflict error templates
     - directive "{{W .Field.TypeShort}}" requires a constraint of type: "{{W "unique"}}", or "{{W "primary key"}}".
 {{ end }}
 
+{{ define "` + errOnConflictActionMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Missing conflict action."}}
+    The field "{{R .Field.Definition}}" specifies no conflict action.
+    - an OnConflict struct requires an "{{W "gosql.Ignore"}}", or a "{{W "gosql.Update"}}" directive.
+{{ end }}
+
 ` // `
 
 var error_templates = template.Must(template.New("t").Funcs(template.FuncMap{
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 4e996c3..26aca06 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -7,7 +7,6 @@ import (
 	"database/sql"
 	"fmt"
 	"log"
-	"regexp"
 	"strconv"
 	"strings"
 	"sync"
@@ -1102,6 +1101,12 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 		info.Target = target
 	}
 
+	// check that there's something to be done on a conflict
+	if qs.OnConflict.Ignore == nil && qs.OnConflict.Update == nil {
+		return c.dbError(dbError{Code: errOnConflictActionMissing,
+			Rel: relInfo{Relation: c.rel}}, qs.OnConflict)
+	}
+
 	// check that each specified column is present in the target table
 	if qs.OnConflict.Update != nil {
 		if qs.OnConflict.Update.All {
@@ -2067,72 +2072,54 @@ func relIdentKey(rid analysis.RelIdent) string {
 }
 
 // matchNumbers is a helper func that reports whether a and b both contain
-// the same numbers regardless of the order.
+// the same numbers regardless of the order, and regardless of repetition.
 func matchNumbers(a, b []int16) bool {
-	if len(a) != len(b) {
-		return false
-	}
+	return containsNumbers(a, b) && containsNumbers(b, a)
+}
 
+// containsNumbers is a helper func that reports whether a contains all of b's numbers.
+func containsNumbers(a, b []int16) bool {
 toploop:
-	for _, x := range a {
-		for _, y := range b {
+	for _, x := range b {
+		for _, y := range a {
 			if x == y {
 				continue toploop
 			}
 		}
-		return false // x not found in b
+		return false // x not found in a
 	}
 	return true
 }
 
-var rxUsingMethod = regexp.MustCompile(`(?i:\susing\s)`)
-
 // parseIndexExpr extracts the index_expression from a CREATE INDEX command.
 // e.g. CREATE INDEX index_name ON table_name USING method_name (index_expression);
 func parseIndexExpr(s string) (expr string) {
-	loc := rxUsingMethod.FindStringIndex(s)
-	if len(loc) > 1 {
-		s = s[loc[1]:]
-	}
-	if i := strings.Index(s, "("); i < 0 {
-		return
-	} else {
-		s = s[i+1:]
-	}
-
-	var (
-		r        rune
-		nested   int  // number nested parentheses
-		position int  // position in the input
-		quoted   bool // quoted text in the input
-		escaped  bool // escaped quote `''` in quoted text
-	)
-	for position, r = range s {
-		if !quoted {
-			if r == '(' {
+	start := -1 // position of the expression in the input
+	nested := 0 // number nested parentheses
+	for i := 0; i < len(s); i++ {
+		switch ch := s[i]; ch {
+		case '\'', '"':
+			// Skip the quoted text. A doubled (escaped) quote ends one
+			// quoted text and begins another one right away.
+			n := strings.IndexByte(s[i+1:], ch)
+			if n < 0 {
+				return ""
+			}
+			i += n + 1
+		case '(':
+			if start < 0 {
+				start = i + 1
+			} else {
 				nested += 1 // nest
-			} else if r == ')' {
-				if nested == 0 {
-					break // done
-				}
-				nested -= 1 // unnest
-			} else if r == '\'' {
-				quoted = true
 			}
-		} else {
-			if r == '\'' && len(s) > position {
-				if s[position+1] == '\'' {
-					escaped = true
-				} else if escaped {
-					escaped = false
-				} else {
-					quoted = false
-				}
+		case ')':
+			if start >= 0 && nested == 0 {
+				return s[start:i] // done
 			}
+			nested -= 1 // unnest
 		}
 	}
-
-	return s[:position]
+	return ""
 }
 
 type int2vec []int16 // helper type
-- 
2.43.0


From 0fb9a3bde560e527ab293cc900e001915fde2c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 35/68] fix: leave included columns out of an index's key

---
 internal/analysis/analysis.go |  4 ++--
 internal/postgres/postgres.go | 15 ++++++++++++++-
 internal/postgres/types.go    |  4 ++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 09c7aed..650ab17 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1903,8 +1903,8 @@ func parsePredicateExpr(expr string) (lhs, cop, qua, rhs string) {
 			var (
 				j     = i + 1
 				x     = lowerASCII(expr) // same length as expr
-				pred1 string // 1st part of predicate (not | is)
-				pred2 string // 2nd part of predicate (distinct | true | null | ...)
+				pred1 string             // 1st part of predicate (not | is)
+				pred2 string             // 2nd part of predicate (distinct | true | null | ...)
 			)
 
 			if n := len(x[j:]); n > 3 && x[j:j+3] == "not" {
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 26aca06..e5e00a5 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1933,10 +1933,18 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 			Rel: relInfo{Id: rid, Relation: rel}, Err: err}, ptr)
 	}
 
-	const selectRelationIndexes = `SELECT
+	// Since v11 indkey also holds the columns that are only included in the
+	// index, those are not part of the index's key.
+	numKeyAtts := "i.indnkeyatts"
+	if db.version < 110000 {
+		numKeyAtts = "i.indnatts"
+	}
+
+	selectRelationIndexes := `SELECT
 		c.oid
 		, c.relname
 		, i.indnatts
+		, ` + numKeyAtts + `
 		, i.indisunique
 		, i.indisprimary
 		, i.indisexclusion
@@ -1957,11 +1965,13 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 	defer rows.Close()
 
 	for rows.Next() {
+		var nkeyatts int
 		ind := new(Index)
 		err := rows.Scan(
 			&ind.OID,
 			&ind.Name,
 			&ind.NumAtts,
+			&nkeyatts,
 			&ind.IsUnique,
 			&ind.IsPrimary,
 			&ind.IsExclusion,
@@ -1976,6 +1986,9 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 				Rel: relInfo{Id: rid, Relation: rel}, Err: err}, ptr)
 		}
 
+		if nkeyatts < len(ind.Key) {
+			ind.Key = ind.Key[:nkeyatts]
+		}
 		ind.Expression = parseIndexExpr(ind.Definition)
 		rel.Indexes = append(rel.Indexes, ind)
 	}
diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index a90ba38..53b1474 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -276,8 +276,8 @@ type (
 		IsReady bool
 		// This is an array of values that indicate which table columns this index
 		// indexes. For example a value of 1 3 would mean that the first
-		// and the third table columns make up the index entries. Key columns come
-		// before non-key (included) columns. A zero in this array indicates that
+		// and the third table columns make up the index entries. Non-key
+		// (included) columns are left out. A zero in this array indicates that
 		// the corresponding index attribute is an expression over the table columns,
 		// rather than a simple column reference.
 		Key []int16
-- 
2.43.0


From 383a54e308b9e459a1a1a8f13297827e985d0d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 36/68] fix: honour the options of the fields a field is nested
 in, and the qualifiers of listed columns

---
 internal/analysis/types.go    | 33 +++++++++++++++++++++++++++++++++
 internal/postgres/postgres.go | 16 +++++++++++-----
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index d2c5df5..7638085 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -691,6 +691,39 @@ func (f FieldInfo) IsWriteOnly() bool {
 	return f.Mode.IsWriteOnly()
 }
 
+// CanInsert reports whether or not the field, and each of
+// the fields it's nested in, allow the field to be inserted.
+func (f FieldInfo) CanInsert() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanInsert() {
+			return false
+		}
+	}
+	return f.Mode.CanInsert()
+}
+
+// CanUpdate reports whether or not the field, and each of
+// the fields it's nested in, allow the field to be updated.
+func (f FieldInfo) CanUpdate() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanUpdate() {
+			return false
+		}
+	}
+	return f.Mode.CanUpdate()
+}
+
+// CanSelect reports whether or not the field, and each of
+// the fields it's nested in, allow the field to be selected.
+func (f FieldInfo) CanSelect() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanSelect() {
+			return false
+		}
+	}
+	return f.Mode.CanSelect()
+}
+
 func (f FieldInfo) ExcludeFromFilter() bool {
 	for i := range f.Selector {
 		if f.Selector[i].Mode.CanExcludeFilter() {
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index e5e00a5..c0faca9 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -323,7 +323,10 @@ func typeCheckQueryDefaultDirective(c *checker, qs *analysis.QueryStruct) error
 	}
 
 	for _, cid := range qs.Default.Items {
-		if col := findRelColumn(c.rel, cid.Name); col == nil {
+		if c.relMap[cid.Qualifier] != c.rel {
+			return c.dbError(dbError{Code: errColumnQualifierUnknown,
+				Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: cid}}, qs.Default)
+		} else if col := findRelColumn(c.rel, cid.Name); col == nil {
 			return c.dbError(dbError{Code: errColumnUnknown,
 				Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: cid}}, qs.Default)
 		} else if !col.HasDefault {
@@ -383,7 +386,10 @@ func typeCheckQueryReturnDirective(c *checker, qs *analysis.QueryStruct) error {
 	} else {
 		strict = true
 		for _, cid := range qs.Return.Items {
-			if f, ecode := findQueryColumnField(c, qs, cid, strict); ecode > 0 {
+			if c.relMap[cid.Qualifier] != c.rel {
+				return c.dbError(dbError{Code: errColumnQualifierUnknown,
+					Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: cid}}, qs.Return)
+			} else if f, ecode := findQueryColumnField(c, qs, cid, strict); ecode > 0 {
 				return c.dbError(dbError{Code: ecode, Col: colInfo{Id: cid}}, qs.Return)
 			} else if f != nil {
 				fields = append(fields, f)
@@ -2007,17 +2013,17 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 
 // skipFieldInsert reports whether or not the given FieldWrite should be skipped for INSERTs.
 func skipFieldInsert(c *checker, fw *FieldWrite) bool {
-	return !fw.Field.Mode.CanInsert() && (c.force == nil || !c.force.Contains(fw.ColIdent))
+	return !fw.Field.CanInsert() && (c.force == nil || !c.force.Contains(fw.ColIdent))
 }
 
 // skipFieldUpdate reports whether or not the given FieldWrite should be skipped for UPDATEs.
 func skipFieldUpdate(c *checker, fw *FieldWrite) bool {
-	return !fw.Field.Mode.CanUpdate() && (c.force == nil || !c.force.Contains(fw.ColIdent))
+	return !fw.Field.CanUpdate() && (c.force == nil || !c.force.Contains(fw.ColIdent))
 }
 
 // skipFieldRead reports whether or not the given FieldRead should be skipped.
 func skipFieldRead(c *checker, fr *FieldRead) bool {
-	return fr.Field.IsWriteOnly() && (c.force == nil || !c.force.Contains(fr.ColIdent))
+	return !fr.Field.CanSelect() && (c.force == nil || !c.force.Contains(fr.ColIdent))
 }
 
 // typeCompatibility
-- 
2.43.0


From a8029ec07a6b85083a2b2974379a43427d5ed4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 37/68] fix: reject comparisons with types that are not in the
 catalog

---
 internal/postgres/postgres.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index c0faca9..8bcf5cb 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -964,6 +964,10 @@ func typeCheckColumnConditional(c *checker, cond *ColumnConditional, rel *Relati
 //	✅ ACCEPT if the combination of LHS type, RHS type, and the predicate has
 //	   an entry in the pg_operator table.
 func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predicate, qua analysis.Quantifier) dbErrorCode {
+	if rtyp == nil { // type not in the catalog
+		return errColumnComparison
+	}
+
 	if pred.IsArray() || qua > 0 {
 		if rtyp.Category != TypeCategoryArray {
 			if pred.IsArray() {
@@ -971,7 +975,9 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 			}
 			return errPredicateOperandQuantifier
 		}
-		rtyp = c.db.catalog.Types[rtyp.Elem]
+		if rtyp = c.db.catalog.Types[rtyp.Elem]; rtyp == nil {
+			return errColumnComparison
+		}
 	}
 
 	if ltyp.OID == rtyp.OID {
-- 
2.43.0


From 316ad98b51d156a87c6c9be0227c5a3350ae8aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 38/68] fix: compare the elements of arrays with the operators
 of other types, and functions PostgreSQL would apply; choose converters
 deterministically

---
 internal/postgres/postgres.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 8bcf5cb..cbe4e95 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -751,7 +751,6 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		if !ok && cond.Predicate.IsArray() {
 			return errPredicateOperandArray
 		} else if !ok && cond.Quantifier > 0 {
-			log.Println("EHHEHEHEHE")
 			return errPredicateOperandQuantifier
 		}
 	}
@@ -766,22 +765,31 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	}
 
 	var comp *compentry
+	var right oid.OID
 	for key := range c.db.catalog.Operators {
 		if key.Name != oprname || key.Left != coid {
 			continue
 		}
 
-		typ, ok := c.db.catalog.Types[key.Right]
+		id := key.Right
+		if cond.Predicate.IsArray() || cond.Quantifier > 0 {
+			// the operator is applied to the array's elements
+			if id = oid.TypeToArray[key.Right]; id == 0 {
+				continue
+			}
+		}
+		typ, ok := c.db.catalog.Types[id]
 		if !ok {
 			continue
 		}
 
+		// prefer a type the value can be sent as without a converter,
+		// and do not depend on the order of the map's iteration
 		if ce := typeCompatibility(c, typ, ftyp, false); ce != nil {
-			if ce.valuer == "" {
-				comp = ce
-				break
-			} else if comp == nil {
-				comp = ce
+			better := comp == nil || (ce.valuer == "") != (comp.valuer == "") && ce.valuer == "" ||
+				(ce.valuer == "") == (comp.valuer == "") && key.Right < right
+			if better {
+				comp, right = ce, key.Right
 			}
 		}
 	}
@@ -810,12 +818,18 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 
 	pairs := []pair{}
 	for _, l := range procs {
+		if l.IsAgg { // aggregates are not allowed in conditions
+			continue
+		}
 		lrettyp, ok := c.db.catalog.Types[l.RetType]
 		if !ok {
 			continue
 		}
 
 		for _, r := range procs {
+			if r.IsAgg {
+				continue
+			}
 			rrettyp, ok := c.db.catalog.Types[r.RetType]
 			if !ok {
 				continue
@@ -1532,7 +1546,7 @@ func checkTypeCoercion(c *checker, target oid.OID, source oid.OID) bool {
 	// if pg_cast says ok, accept.
 	key := CastKey{Target: target, Source: source}
 	if cast := c.db.catalog.Casts[key]; cast != nil {
-		return cast.Context == CastContextImplicit || cast.Context == CastContextAssignment
+		return cast.Context == CastContextImplicit
 	}
 	return false
 }
-- 
2.43.0


From 7ec811e362ca2e9b829d3d3377034283c2e19999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 39/68] fix: keep the clauses after a filter's, pass the
 arguments of limited queries with filters, and apply fallbacks before lists
 are copied

---
 internal/generator/generator.go | 54 ++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b931130..996c258 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -238,6 +238,12 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		g.queryCallStmt,
 		g.queryResultStmt,
 	}
+	if len(g.inputSliceArgs) > 0 {
+		// The queryStringStmt copies the arguments into the params
+		// slice, the fallback values need to be set before that.
+		method.Body.List[0] = g.queryLimitAndOffsetFallback
+		method.Body.List[1] = g.queryStringStmt
+	}
 
 	if g.cfg.MethodWithContext.Value {
 		ctxType := GO.TypeNode(GO.QualifiedIdent{"context", "Context"})
@@ -1037,13 +1043,32 @@ func buildSQLSelectStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Join != nil {
 		stmt.Join.List = append(stmt.Join.List, g.tableJoinSlice...)
 	}
-	stmt.Where = g.whereClause
-	stmt.Order = g.orderClause
-	stmt.Limit = g.limitClause
-	stmt.Offset = g.offsetClause
+	if qs.Filter == nil {
+		stmt.Where = g.whereClause
+		stmt.Order = g.orderClause
+		stmt.Limit = g.limitClause
+		stmt.Offset = g.offsetClause
+	} else if tail := makeSQLFilterTail(g, qs); len(tail) > 0 {
+		g.sqlTailNode = tail
+	}
 	g.sqlMainNode = stmt
 }
 
+// makeSQLFilterTail returns the clauses that need to follow the ones produced
+// by the query's filter. The LIMIT clause is included only if it was declared.
+func makeSQLFilterTail(g *generator, qs *analysis.QueryStruct) (tail SQL.NodeList) {
+	if qs.OrderBy != nil {
+		tail = append(tail, g.orderClause)
+	}
+	if qs.Limit != nil {
+		tail = append(tail, g.limitClause)
+	}
+	if qs.Offset != nil {
+		tail = append(tail, g.offsetClause)
+	}
+	return tail
+}
+
 // buildSQLDeleteStatement builds an SQL.DeleteStatement.
 func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 	stmt := SQL.DeleteStatement{}
@@ -1055,7 +1080,11 @@ func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	stmt.Where = g.whereClause
-	stmt.Returning = SQL.ReturningClause(g.outputVals) //returning
+	if qs.Filter != nil && len(g.outputVals) > 0 {
+		g.sqlTailNode = SQL.ReturningClause(g.outputVals)
+	} else {
+		stmt.Returning = SQL.ReturningClause(g.outputVals) //returning
+	}
 	g.sqlMainNode = stmt
 }
 
@@ -1068,10 +1097,17 @@ func buildSQLSelectCountStatement(g *generator, qs *analysis.QueryStruct) {
 		stmt.Join.List = append(stmt.Join.List, g.tableJoinSlice...)
 	}
 
+	// NOTE: The result is a single row, the ORDER BY clause would
+	// be rejected by postgres since the rows are aggregated.
+	g.orderClause = SQL.OrderClause{}
 	if qs.Filter == nil {
 		stmt.Where = g.whereClause
-		stmt.Order = g.orderClause
+		if qs.Limit != nil {
+			stmt.Limit = g.limitClause
+		}
 		stmt.Offset = g.offsetClause
+	} else if tail := makeSQLFilterTail(g, qs); len(tail) > 0 {
+		g.sqlTailNode = tail
 	}
 
 	g.sqlMainNode = stmt
@@ -1095,6 +1131,10 @@ func buildSQLSelectExistsStatement(g *generator, qs *analysis.QueryStruct) {
 	} else {
 		stmt.Open = true
 		g.closeFilter = true
+		if tail := makeSQLFilterTail(g, qs); len(tail) > 0 {
+			g.sqlTailNode = append(tail, SQL.Literal{`)`})
+			g.closeFilter = false
+		}
 	}
 
 	g.sqlMainNode = stmt
@@ -1745,7 +1785,7 @@ func buildQueryStringForFilter(g *generator, qs *analysis.QueryStruct) {
 }
 
 func buildQueryFilterParams(g *generator, qs *analysis.QueryStruct) {
-	if qs.Filter == nil || qs.Kind != analysis.QueryKindUpdate {
+	if qs.Filter == nil || len(g.inputArgs) == 0 {
 		g.queryFilterParams = GO.NoOp{}
 		return
 	}
-- 
2.43.0


From 0e4c10d77bed04a02bf1306d731026cc4bfba9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 40/68] fix: generate the declared form of ranges and of list
 predicates on columns, and reject quantified predicates PostgreSQL lacks

---
 internal/analysis/enums.go      |  5 ++++-
 internal/generator/generator.go | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/analysis/enums.go b/internal/analysis/enums.go
index d93b68e..f7b272d 100644
--- a/internal/analysis/enums.go
+++ b/internal/analysis/enums.go
@@ -391,7 +391,10 @@ func (p Predicate) IsArray() bool { return _seq_pred_start < p && p < _seq_pred_
 func (p Predicate) IsUnary() bool { return p.IsNull() || p.IsBoolean() }
 
 // CanQuantify reports whether or not the predicate can be used together with a quantifier.
-func (p Predicate) CanQuantify() bool { return p.IsBinary() || p.IsPatternMatch() }
+// Note that postgres does not support quantifiers with [NOT] DISTINCT FROM and [NOT] SIMILAR TO.
+func (p Predicate) CanQuantify() bool {
+	return (p.IsBinary() || p.IsPatternMatch()) && !p.IsOneOf(IsDistinct, NotDistinct, IsSimilar, NotSimilar)
+}
 
 // IsOneOf reports whether or not p is one of the provided predicates.
 func (p Predicate) IsOneOf(pp ...Predicate) bool {
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 996c258..ee5ae69 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1392,6 +1392,17 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				predicate.Pattern = rhs
 				expr = predicate
 			case analysis.IsIn, analysis.NotIn:
+				if _, ok := cond.(*postgres.ColumnConditional); ok {
+					// the right-hand side is an array, not a list of values
+					predicate := SQL.ComparisonPredicate{Cmp: SQL.EQUAL, LPredicand: lhs}
+					predicate.RPredicand = SQL.QuantifiedExpr{Qua: SQL.ANY, Expr: rhs}
+					if pred == analysis.NotIn {
+						predicate.Cmp = SQL.NOT_EQUAL
+						predicate.RPredicand = SQL.QuantifiedExpr{Qua: SQL.ALL, Expr: rhs}
+					}
+					expr = predicate
+					break
+				}
 				sx := GO.SelectorExpr{X: sx, Sel: GO.Ident{fieldName}}
 				g.inputSliceArgs = append(g.inputSliceArgs, sx)
 				g.paramNum -= 1 // ordinal param won't be used directly
@@ -1450,6 +1461,10 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQL.BetweenPredicate {
 	predicate := SQL.BetweenPredicate{}
 	predicate.Predicand = makeColRef(cond.ColIdent)
+	predicate.Not = cond.Predicate.IsOneOf(analysis.NotBetween, analysis.NotBetweenSym, analysis.NotBetweenAsym)
+	if cond.Predicate.IsOneOf(analysis.IsBetweenSym, analysis.NotBetweenSym) {
+		predicate.Sym = SQL.SYMMETRIC
+	}
 
 	switch lower := cond.LowerBound.(type) {
 	case *postgres.ColumnConditional:
-- 
2.43.0


From eb4090e045cd0a996bc59d84098c91955923bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 41/68] fix: set fallbacks before the string of a query with
 lists only if there are fallbacks

---
 internal/generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index ee5ae69..ac0fdee 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -238,7 +238,7 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		g.queryCallStmt,
 		g.queryResultStmt,
 	}
-	if len(g.inputSliceArgs) > 0 {
+	if len(g.inputSliceArgs) > 0 && len(g.queryLimitAndOffsetFallback) > 1 {
 		// The queryStringStmt copies the arguments into the params
 		// slice, the fallback values need to be set before that.
 		method.Body.List[0] = g.queryLimitAndOffsetFallback
-- 
2.43.0


From f0e4290d17a28801a8262ad15d29888de6245da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 42/68] fix: return the rows of slice updates, keep defaults
 out of their value lists, and name the lists apart from other relations

---
 internal/generator/generator.go | 60 +++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index ac0fdee..6f1008c 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -11,6 +11,7 @@ import (
 	"github.com/frk/gosql/internal/postgres"
 	"github.com/frk/gosql/internal/postgres/oid"
 
+	"github.com/frk/ast"
 	GO "github.com/frk/ast/golang"
 	SQL "github.com/frk/ast/sqlang"
 )
@@ -116,6 +117,8 @@ type generator struct {
 	inputVals      SQL.ValueExprList
 	inputValsPKeys SQL.ValueExprList
 	updateCols     SQL.ValueExprList
+	// The list of columns of the VALUES list that's used by the UPDATE of a slice.
+	valuesCols SQL.NameGroup
 
 	// The root node for the fields to be passed as output destination (Scan).
 	outputRoot GO.ExprNode
@@ -303,14 +306,21 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fw := range g.info.Writes {
 		if canUseDefault(qs, fw.Field) {
+			if qs.IsUpdateSlice() {
+				// the VALUES list cannot contain the DEFAULT marker
+				g.updateCols = append(g.updateCols, SQL.DEFAULT)
+				continue
+			}
 			g.inputVals = append(g.inputVals, SQL.DEFAULT)
 			continue
 		}
 
 		if qs.IsUpdateSlice() {
+			g.valuesCols = append(g.valuesCols, SQL.Name(fw.Column.Name))
+
 			col := SQL.ColumnIdent{}
 			col.Name = SQL.Name(fw.Column.Name)
-			col.Qual = "x"
+			col.Qual = valuesListAlias(qs)
 			g.updateCols = append(g.updateCols, col)
 
 			var expr SQL.ValueExpr
@@ -420,6 +430,7 @@ func buildQueryInputPKeyFields(g *generator, qs *analysis.QueryStruct) {
 				fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			}
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{fw.Field.Name}}
+			fx = addConverterCallExpr(g, fx, fw.Valuer)
 			g.inputArgs = append(g.inputArgs, fx)
 		}
 	}
@@ -1012,11 +1023,16 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if qs.Rel.Type.IsSlice {
-		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
+		if len(stmt.Head.From.List) > 0 {
+			stmt.Head.From.List = append(stmt.Head.From.List, nextValuesList{})
+		} else {
+			stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
+		}
 
-		columns := append(g.inputCols, g.inputColsPKeys...)
-		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
+		columns := append(g.valuesCols, g.inputColsPKeys...)
+		alias := SQL.ValuesListAliasPartial{Alias: valuesListAlias(qs), Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
+		tail.Returning = SQL.ReturningClause(g.outputVals)
 		g.sqlTailNode = SQL.NodeList{alias, tail}
 		g.sqlMainNode = stmt
 		return
@@ -1035,6 +1051,35 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	g.sqlMainNode = stmt
 }
 
+// nextValuesList is a SQL.ValuesListClausePartial that's not the first in the list.
+type nextValuesList struct {
+	SQL.ValuesListClausePartial
+}
+
+func (v nextValuesList) Walk(w *ast.Writer) {
+	w.Write(", ")
+	v.ValuesListClausePartial.Walk(w)
+}
+
+// valuesListAlias returns the alias of the VALUES list used by the UPDATE
+// of a slice, it's different from the names of the query's other relations.
+func valuesListAlias(qs *analysis.QueryStruct) string {
+	alias := "x"
+	ids := []analysis.RelIdent{qs.Rel.Id}
+	if qs.Join != nil {
+		ids = append(ids, qs.Join.Relation.RelIdent)
+		for _, dir := range qs.Join.Directives {
+			ids = append(ids, dir.RelIdent)
+		}
+	}
+	for i := 0; i < len(ids); i++ {
+		if strings.EqualFold(ids[i].Alias, alias) || (ids[i].Alias == "" && ids[i].Name == alias) {
+			alias, i = alias+"x", -1
+		}
+	}
+	return alias
+}
+
 // buildSQLSelectStatement builds and returns an SQL.SelectStatement.
 func buildSQLSelectStatement(g *generator, qs *analysis.QueryStruct) {
 	stmt := SQL.SelectStatement{}
@@ -1232,7 +1277,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
-				col := SQL.ColumnIdent{Qual: "x", Name: SQL.Name(fw.ColIdent.Name)}
+				col := SQL.ColumnIdent{Qual: valuesListAlias(qs), Name: SQL.Name(fw.ColIdent.Name)}
 				predicate.RPredicand = SQL.CastExpr{Expr: col, Type: fw.Column.Type.NameFmt}
 			}
 
@@ -2103,7 +2148,10 @@ func inputPKeys(t *postgres.TargetInfo) (out []*postgres.FieldWrite) {
 		elide := false
 		for j := 0; j < len(t.Writes); j++ {
 			if t.Writes[j].Field == t.PKeys[i].Field {
-				elide = true
+				// if the default is written then the
+				// field's value is not yet among the inputs
+				qs, ok := t.Struct.(*analysis.QueryStruct)
+				elide = !ok || !canUseDefault(qs, t.PKeys[i].Field)
 			}
 		}
 		if !elide {
-- 
2.43.0


From 6528d00831ed3cf9ed034f3e89a8f3687c9f433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 43/68] fix: initialise nested pointers whose names run
 together, and those of returned records that only hold read fields

---
 internal/generator/generator.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 6f1008c..a137176 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -534,8 +534,19 @@ func buildQueryOutputInitRoot(g *generator, qs *analysis.QueryStruct) {
 
 // buildQueryOutputInitFields
 func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
-	if canSkipRelInit(qs) {
-		return
+	// If the output is also the input then the pointers to the written fields
+	// have already been dereferenced, but those that contain only read fields
+	// may not have been initialized by the caller.
+	ifnil := canSkipRelInit(qs)
+	input := make(map[string]bool)
+	if ifnil {
+		for _, fw := range append(g.info.Writes, g.inputPKeys...) {
+			key := ""
+			for _, node := range fw.Field.Selector {
+				key += "." + node.Name
+				input[key] = true
+			}
+		}
 	}
 
 	// done is used to keep track of pointer fields whose
@@ -547,10 +558,10 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 
 		fx := g.outputVar
 		for _, node := range fr.Field.Selector {
-			key += node.Name
+			key += "." + node.Name
 
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
-			if node.IsPointer && !done[key] {
+			if node.IsPointer && !done[key] && !input[key] {
 				typeNode := GO.TypeNode(GO.Ident{node.TypeName})
 				if node.IsImported {
 					imp := addimport(g.file, node.TypePkgPath, node.TypePkgName)
@@ -560,7 +571,13 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 				init := GO.AssignStmt{Token: GO.Assign}
 				init.Lhs = fx
 				init.Rhs = GO.CallNewExpr{typeNode}
-				g.outputInit = append(g.outputInit, init)
+				if ifnil {
+					cond := GO.BinaryExpr{Op: GO.BinaryEql, X: fx, Y: GO.Ident{"nil"}}
+					body := GO.BlockStmt{List: []GO.StmtNode{init}}
+					g.outputInit = append(g.outputInit, GO.IfStmt{Cond: cond, Body: body})
+				} else {
+					g.outputInit = append(g.outputInit, init)
+				}
 
 				done[key] = true
 			}
-- 
2.43.0


From 82a03307f2d7ece068e8a417686d8c9f7d2ba8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 44/68] fix: give the imports of generated files names of their
 own, and filter methods the types of their fields

---
 internal/analysis/analysis.go   |   3 +
 internal/generator/generator.go | 173 ++++++++++++++++++++++----------
 2 files changed, 122 insertions(+), 54 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 650ab17..1c8a59d 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -70,6 +70,8 @@ type Info struct {
 	FileSet *token.FileSet
 	// The package path of the analyzed TargetStruct.
 	PkgPath string
+	// The package of the analyzed TargetStruct.
+	Pkg *types.Package
 	// The type name of the analyzed TargetStruct.
 	TypeName string
 	// The soruce position of the TargetStruct's type name.
@@ -103,6 +105,7 @@ func Run(fset *token.FileSet, named *types.Named, pos token.Pos, cfg config.Conf
 	a.info = new(Info)
 	a.info.FileSet = fset
 	a.info.PkgPath = a.pkgPath
+	a.info.Pkg = named.Obj().Pkg()
 	a.info.TypeName = named.Obj().Name()
 	a.info.TypeNamePos = pos
 	a.info.FieldMap = make(map[FieldPtr]FieldVar)
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a137176..75bd807 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1,10 +1,14 @@
 package generator
 
 import (
+	"go/token"
+	"go/types"
 	"io"
 	"log"
+	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/frk/gosql/internal/analysis"
 	"github.com/frk/gosql/internal/config"
@@ -36,6 +40,10 @@ func Write(f io.Writer, pkgName string, targets []*postgres.TargetInfo, cfg conf
 	)
 
 	for _, info := range targets {
+		if pkg := info.Info.Pkg; pkg != nil {
+			file.scope = pkg.Scope()
+		}
+
 		g := new(generator)
 		g.cfg = cfg
 		g.info = info
@@ -67,9 +75,6 @@ type impspec struct {
 	// If set, it indicates that the Name field should be set
 	// in the generated GO.ImportSpec node.
 	local bool
-	// Number of package's with the same name. This value is used by those
-	// packages to modify their name in order to not cause an import conflict.
-	num int
 }
 
 // The file type holds info about the file for which the code is being generated.
@@ -78,6 +83,8 @@ type file struct {
 	GO.File
 	// List of imports requried by the file.
 	impset []*impspec
+	// The scope of the package to which the file belongs.
+	scope *types.Scope
 }
 
 type generator struct {
@@ -181,11 +188,11 @@ func (g *generator) tableExprSlice() []SQL.TableExpr {
 
 // buildQueryCode builds code for the given QueryStruct.
 func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
-	typ := g.cfg.MethodArgumentType
-	imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-	typ.PkgName = imp.name
+	connType := makeMethodArgumentTypeNode(g)
+	ctxType := GO.TypeNode(nil)
 	if g.cfg.MethodWithContext.Value {
-		_ = addimport(g.file, "context", "")
+		imp := addimport(g.file, "context", "context")
+		ctxType = GO.QualifiedIdent{imp.name, "Context"}
 	}
 
 	buildQueryInput(g, qs)
@@ -222,17 +229,12 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		buildQueryResultRowsScan(g, qs)
 	}
 
-	conn := GO.TypeNode(GO.QualifiedIdent{typ.PkgName, typ.Name})
-	if typ.IsPtr {
-		conn = GO.PointerType{conn}
-	}
-
 	// put it all together
 	method := GO.MethodDecl{}
 	method.Recv.Name.Name = "q"
 	method.Recv.Type = GO.PointerRecvType{qs.TypeName}
 	method.Name.Name = g.cfg.MethodName.Value
-	method.Type.Params = GO.ParamList{{Names: GO.Ident{"c"}, Type: conn}}
+	method.Type.Params = GO.ParamList{{Names: GO.Ident{"c"}, Type: connType}}
 	method.Type.Results = GO.ParamList{{Type: GO.Ident{"error"}}}
 	method.Body.List = []GO.StmtNode{
 		g.queryStringStmt,
@@ -249,7 +251,6 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if g.cfg.MethodWithContext.Value {
-		ctxType := GO.TypeNode(GO.QualifiedIdent{"context", "Context"})
 		method.Type.Params = GO.ParamList{
 			{Names: GO.Ident{"ctx"}, Type: ctxType},
 			method.Type.Params[0],
@@ -660,8 +661,8 @@ func buildQueryLimitOffsetFallback(g *generator, qs *analysis.QueryStruct) {
 // addConverterCallExpr
 func addConverterCallExpr(g *generator, x GO.ExprNode, converter string) GO.ExprNode {
 	if len(converter) > 0 {
-		addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
-		sel := GO.SelectorExpr{X: GO.Ident{pgsqlPkgName}, Sel: GO.Ident{converter}}
+		imp := addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
+		sel := GO.SelectorExpr{X: GO.Ident{imp.name}, Sel: GO.Ident{converter}}
 		return GO.CallExpr{Fun: sel, Args: GO.ArgsList{List: x}}
 	}
 	return x
@@ -884,18 +885,10 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 			continue
 		}
 
-		// add import if necessary
-		if imported := ff.Field.Type.ImportedTypes(); len(imported) > 0 {
-			for _, typ := range imported {
-				imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-				ff.Field.Type.PkgName = imp.name
-			}
-		}
-
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
 			{Names: oper, Type: GO.Ident{"string"}},
-			{Names: value, Type: GO.Ident{string(ff.Field.Type.Literal())}},
+			{Names: value, Type: makeFilterValueTypeNode(g, ff.Field)},
 		}
 		methodecl.Type.Results = GO.ParamList{{Type: GO.PointerType{GO.Ident{fs.TypeName}}}}
 
@@ -1473,7 +1466,8 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				arg1 := GO.Ident{"len" + num}
 				arg2 := GO.Ident{"pos" + num}
 
-				call := GO.CallExpr{Fun: GO.QualifiedIdent{"gosql", "InValueList"}}
+				imp := addimport(g.file, gosqlPkgPath, gosqlPkgName)
+				call := GO.CallExpr{Fun: GO.QualifiedIdent{imp.name, "InValueList"}}
 				call.Args = GO.ArgsList{List: GO.ExprList{arg1, arg2}}
 
 				predicate := SQL.InPredicate{}
@@ -1566,7 +1560,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		queryStringVar = GO.Ident{"queryString"}
 		paramsVar      = GO.Ident{"params"}
 		ifaceSliceType = GO.Ident{"[]interface{}"}
-		ordinalParams  = GO.QualifiedIdent{"gosql", "OrdinalParameters"}
 		forLoop        = GO.ForStmt{}
 	)
 
@@ -1634,7 +1627,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		strConcatExprList = make([]GO.ExprNode, valueCount+1) // +1 for the final `),`
 	)
 
-	var importGosql bool
 	inputVals := append(g.inputVals, g.inputValsPKeys...)
 	for i, val := range inputVals {
 		sep := `, `
@@ -1646,7 +1638,8 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 			defaultCount += 1
 			strConcatExprList[i] = GO.RawStringLit(sep + `DEFAULT`)
 		} else {
-			importGosql = true
+			imp := addimport(g.file, gosqlPkgPath, gosqlPkgName)
+			ordinalParams := GO.QualifiedIdent{imp.name, "OrdinalParameters"}
 
 			// produce:
 			//	`, ` + gosql.OrdinalParameters[pos+<i - defaultCount>] +
@@ -1677,10 +1670,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 
 		}
 	}
-	if importGosql {
-		addimport(g.file, gosqlPkgPath, gosqlPkgName)
-	}
-
 	strConcatExprList[len(strConcatExprList)-1] = GO.RawStringLit(`),`)
 
 	assign := GO.AssignStmt{Token: GO.AssignAdd}
@@ -2180,30 +2169,37 @@ func inputPKeys(t *postgres.TargetInfo) (out []*postgres.FieldWrite) {
 
 // addimport adds a new impspec to the file's impset if it is not already a member of the set.
 func addimport(f *file, path, name string) *impspec {
-	if name == "" {
-		name = path
-		if i := strings.LastIndexByte(name, '/'); i > -1 {
-			name = name[i+1:]
-		}
-	}
-
-	var namesake *impspec
 	for _, imp := range f.impset {
 		// already added, exit
 		if imp.path == path {
 			return imp
 		}
+	}
 
-		// retain import that has the same name
-		if imp.name == name {
-			namesake = imp
+	imp := &impspec{path: path, name: name}
+	if name == "" {
+		// the package's name isn't known, make one up
+		name = path[strings.LastIndexByte(path, '/')+1:]
+		name = "_" + strings.Map(func(r rune) rune {
+			if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+				return r
+			}
+			return '_'
+		}, name)
+		if trimmed := strings.TrimLeft(name, "_"); token.IsIdentifier(trimmed) {
+			name = trimmed
 		}
+		imp.name = name
+		imp.local = true
 	}
 
-	imp := &impspec{path: path, name: name}
-	if namesake != nil {
-		namesake.num += 1
-		imp.name = name + strconv.Itoa(namesake.num)
+	if rxReservedImportName.MatchString(name) {
+		name += "pkg"
+		imp.name = name
+		imp.local = true
+	}
+	for i := 1; !canUseImportName(f, imp.name); i++ {
+		imp.name = name + strconv.Itoa(i)
 		imp.local = true
 	}
 
@@ -2211,6 +2207,22 @@ func addimport(f *file, path, name string) *impspec {
 	return imp
 }
 
+// rxReservedImportName matches the identifiers that are declared, or
+// predeclared and used, by the code of the generated methods.
+var rxReservedImportName = regexp.MustCompile(`^(?:c|ctx|err|f|filterString|i|i64|(?:len|pos)\d*|nest|nstatic|op|` +
+	`params|q|queryString|res|row|rows|v|val|append|error|int64|make|new|nil|string|true)$`)
+
+// canUseImportName reports whether or not the package that is to be imported
+// by the file can be given the specified name.
+func canUseImportName(f *file, name string) bool {
+	for _, imp := range f.impset {
+		if imp.name == name {
+			return false
+		}
+	}
+	return f.scope == nil || f.scope.Lookup(name) == nil
+}
+
 // newImportDecl produces an import declaration for packages that are to be imported by the given file.
 func newImportDecl(f *file) *GO.ImportDecl {
 	imports := new(GO.ImportDecl)
@@ -2266,7 +2278,8 @@ func makeErrorReturnStmt(g *generator, qs *analysis.QueryStruct, errExpr GO.Expr
 			errVar         = GO.Ident{"err"}
 			nilVal         = GO.Ident{"nil"}
 			queryStringVar = GO.Ident{"queryString"}
-			errorInfoType  = GO.QualifiedIdent{"gosql", "ErrorInfo"}
+			gosqlImport    = addimport(g.file, gosqlPkgPath, gosqlPkgName)
+			errorInfoType  = GO.QualifiedIdent{gosqlImport.name, "ErrorInfo"}
 		)
 
 		// produce:
@@ -2384,12 +2397,64 @@ func makeParamSpec(g *generator, ptr analysis.FieldPtr) SQL.OrdinalParameterSpec
 	return SQL.OrdinalParameterSpec{g.paramNum}
 }
 
-// makeRelTypeNode
-func makeRelTypeNode(reltyp analysis.RelType) GO.TypeNode {
-	if reltyp.Base.IsImported {
-		return GO.QualifiedIdent{reltyp.Base.PkgName, reltyp.Base.Name}
+// makeMethodArgumentTypeNode
+func makeMethodArgumentTypeNode(g *generator) GO.TypeNode {
+	typ := g.cfg.MethodArgumentType
+
+	node := GO.TypeNode(GO.Ident{typ.Name})
+	if typ.PkgPath != g.info.Info.PkgPath {
+		imp := addimport(g.file, typ.PkgPath, typ.PkgName)
+		node = GO.QualifiedIdent{imp.name, typ.Name}
+	}
+	if typ.IsPtr {
+		node = GO.PointerType{node}
+	}
+	return node
+}
+
+// makeFilterValueTypeNode returns the type of the argument that's compared to the given
+// field's column. If the field's type is a pointer the result will be the type it points to.
+func makeFilterValueTypeNode(g *generator, f *analysis.FieldInfo) GO.TypeNode {
+	typ := g.info.Info.FieldMap[f].Var.Type()
+	if ptr, ok := types.Unalias(typ).(*types.Pointer); ok {
+		typ = ptr.Elem()
+	}
+	if !canNameType(g, typ) {
+		return GO.Ident{"interface{}"}
+	}
+	return makeTypeNode(g, typ)
+}
+
+// makeTypeNode
+func makeTypeNode(g *generator, typ types.Type) GO.TypeNode {
+	return GO.Ident{types.TypeString(typ, func(pkg *types.Package) string {
+		if pkg.Path() == g.info.Info.PkgPath {
+			return ""
+		}
+		return addimport(g.file, pkg.Path(), pkg.Name()).name
+	})}
+}
+
+// canNameType reports whether or not the names the given type consists
+// of are accessible from the package of the generated file.
+func canNameType(g *generator, typ types.Type) bool {
+	switch t := typ.(type) {
+	case interface{ Obj() *types.TypeName }: // *types.Named or *types.Alias
+		pkg := t.Obj().Pkg()
+		return t.Obj().Exported() || pkg == nil || pkg.Path() == g.info.Info.PkgPath
+	case interface{ Elem() types.Type }: // array, slice, pointer, map, or chan
+		if m, ok := typ.(*types.Map); ok && !canNameType(g, m.Key()) {
+			return false
+		}
+		return canNameType(g, t.Elem())
+	case *types.Struct:
+		for i := 0; i < t.NumFields(); i++ {
+			if f := t.Field(i); !f.Exported() && f.Pkg().Path() != g.info.Info.PkgPath || !canNameType(g, f.Type()) {
+				return false
+			}
+		}
 	}
-	return GO.Ident{reltyp.Base.Name}
+	return true
 }
 
 // makeColRef
-- 
2.43.0


From 5f3bd5f7032b8f9c3274a6d0a78e8f7314c9dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 45/68] fix: accept pointers to error handlers, and call error
 info handlers of executed queries only with an error

---
 internal/analysis/analysis.go   | 12 ++++++++++--
 internal/generator/generator.go |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 1c8a59d..daa59c3 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2223,7 +2223,11 @@ func isBoolType(typ types.Type) bool {
 
 // isErrorHandler reports whether or not the given type implements the gosql.ErrorHandler interface.
 func isErrorHandler(typ types.Type) bool {
-	named, ok := types.Unalias(typ).(*types.Named)
+	typ = types.Unalias(typ)
+	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+		typ = types.Unalias(ptr.Elem())
+	}
+	named, ok := typ.(*types.Named)
 	if !ok {
 		return false
 	}
@@ -2232,7 +2236,11 @@ func isErrorHandler(typ types.Type) bool {
 
 // isErrorInfoHandler reports whether or not the given type implements the gosql.ErrorInfoHandler interface.
 func isErrorInfoHandler(typ types.Type) bool {
-	named, ok := types.Unalias(typ).(*types.Named)
+	typ = types.Unalias(typ)
+	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+		typ = types.Unalias(ptr.Elem())
+	}
+	named, ok := typ.(*types.Named)
 	if !ok {
 		return false
 	}
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 75bd807..79b3df8 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -220,6 +220,9 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 			buildQueryResultRowsAffected(g, qs)
 		} else {
 			g.queryResultStmt = makeErrorReturnStmt(g, qs, GO.Ident{"err"})
+			if !qs.HasNoErrorInfoHandler() { // invoked only if there is an error
+				g.queryResultStmt = GO.StmtList{makeErrorIfStmt(g, qs), GO.ReturnStmt{GO.Ident{"nil"}}}
+			}
 		}
 	} else if qs.IsSingleOutput() {
 		buildQueryCallQueryRow(g, qs)
-- 
2.43.0


From 6be9618b477e330faecdb88df3b7b74aaa7b8947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 46/68] fix: reject writes without columns, and updates by
 primary key whose record lacks the key

---
 internal/postgres/errors.go   | 14 ++++++++++++++
 internal/postgres/postgres.go | 30 ++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index d73156a..fe07249 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -68,6 +68,9 @@ const (
 	errOnConflictConstraintUnknown
 	errOnConflictConstraintNotUnique
 	errOnConflictActionMissing
+
+	errWriteColumnsMissing
+	errPrimaryKeyMissing
 )
 
 type dbError struct {
@@ -596,6 +599,17 @@ On Conflict error templates
     - an OnConflict struct requires an "{{W "gosql.Ignore"}}", or a "{{W "gosql.Update"}}" directive.
 {{ end }}
 
+{{ define "` + errWriteColumnsMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Missing columns to write."}}
+    The type of the field "{{R .Field.Definition}}" contains no fields whose columns could be written.
+{{ end }}
+
+{{ define "` + errPrimaryKeyMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Missing primary key."}}
+    The type of the field "{{R .Field.Definition}}" does not contain the primary key of the relation "{{R .Rel.Id}}".
+    - an UPDATE without a WHERE struct, gosql.Filter field, or gosql.All directive requires the primary key.
+{{ end }}
+
 ` // `
 
 var error_templates = template.Must(template.New("t").Funcs(template.FuncMap{
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index cbe4e95..e79287e 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -435,6 +435,8 @@ func typeCheckQueryResultField(c *checker, qs *analysis.QueryStruct) error {
 //   - If the query represents an INSERT or UPDATE:
 //     ✅ Each field of the query's struct data type MUST be of a type that
 //     is writeable to the corresponding column.
+//     ✅ There MUST be at least one such column, and if an UPDATE identifies its
+//     rows by the primary key, the struct MUST have a field for each of its columns.
 func typeCheckQueryRelField(c *checker, qs *analysis.QueryStruct) error {
 	if qs.Rel == nil || qs.Rel.IsDirective {
 		return nil
@@ -474,10 +476,38 @@ func typeCheckQueryRelField(c *checker, qs *analysis.QueryStruct) error {
 				}
 			}
 		}
+
+		// ✅ There MUST be at least one column to be written.
+		if len(c.res.Writes) == 0 {
+			return c.dbError(dbError{Code: errWriteColumnsMissing,
+				Rel: relInfo{Relation: c.rel}}, qs.Rel)
+		}
+
+		// ✅ The rows to be updated MUST be identified by their whole primary key.
+		if qs.IsUpdateWithPKeys() {
+			missing := len(c.res.PKeys) == 0
+			for _, col := range c.rel.Columns {
+				missing = missing || (col.IsPrimary && !hasColumn(c.res.PKeys, col))
+			}
+			if missing {
+				return c.dbError(dbError{Code: errPrimaryKeyMissing,
+					Rel: relInfo{Relation: c.rel}}, qs.Rel)
+			}
+		}
 	}
 	return nil
 }
 
+// hasColumn reports whether or not one of the given writes' columns is col.
+func hasColumn(writes []*FieldWrite, col *Column) bool {
+	for _, w := range writes {
+		if w.Column == col {
+			return true
+		}
+	}
+	return false
+}
+
 // typeCheckQueryJoinStruct ...
 func typeCheckQueryJoinStruct(c *checker, qs *analysis.QueryStruct) error {
 	if qs.Join == nil {
-- 
2.43.0


From 37496c4695edb180322aad00a5df5f9c398e6e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 47/68] fix: quote the keys of filter columns, and skip filter
 methods whose names are taken

---
 internal/generator/generator.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 79b3df8..39379eb 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -780,7 +780,7 @@ func buildFilterColumnMap(g *generator, fs *analysis.FilterStruct) (mapid GO.Ide
 		keyset[key] = struct{}{}
 
 		elem := GO.KeyElement{}
-		elem.Key = GO.StringLit(key)
+		elem.Key = GO.ValueLit(strconv.Quote(key))
 		elem.Value = GO.RawStringLit(g.fmtColIdent(filter.ColIdent))
 
 		if fs.IsV2() {
@@ -860,6 +860,20 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		selx  = GO.SelectorExpr{X: GO.SelectorExpr{X: recv, Sel: ctor}, Sel: GO.Ident{"Col"}}
 	)
 
+	// The names that cannot be given to the methods: the reserved ones, those
+	// of the filter struct's own fields, and those of the preceding methods.
+	taken := make(map[string]struct{})
+	for name := range reservedFilterMethodNames {
+		taken[name] = struct{}{}
+	}
+	if obj := g.info.Info.Pkg.Scope().Lookup(fs.TypeName); obj != nil {
+		if styp, ok := obj.Type().Underlying().(*types.Struct); ok {
+			for i := 0; i < styp.NumFields(); i++ {
+				taken[styp.Field(i).Name()] = struct{}{}
+			}
+		}
+	}
+
 	for _, ff := range g.info.Filters {
 		methodecl := GO.MethodDecl{}
 
@@ -883,10 +897,11 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		}
 		methodecl.Name.Name += ff.Field.Name
 
-		// skip if name is reserved
-		if _, ok := reservedFilterMethodNames[methodecl.Name.Name]; ok {
+		// skip if name is taken
+		if _, ok := taken[methodecl.Name.Name]; ok {
 			continue
 		}
+		taken[methodecl.Name.Name] = struct{}{}
 
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
@@ -2538,6 +2553,9 @@ func fmtColIdentQuoted(id analysis.ColIdent) string {
 //
 
 var reservedFilterMethodNames = map[string]struct{}{
+	"Init":          struct{}{},
+	"And":           struct{}{},
+	"Or":            struct{}{},
 	"UnmarshalFQL":  struct{}{},
 	"UnmarshalSort": struct{}{},
 	"TextSearch":    struct{}{},
-- 
2.43.0


From ccfc7afe4185426e3d41504819a58f94a0349db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 48/68] fix: name the types of pointers to initialise the way
 they are declared

---
 internal/analysis/analysis.go   | 18 ++++++++++++------
 internal/analysis/types.go      |  3 +++
 internal/generator/generator.go | 16 ++++++----------
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index daa59c3..56c8316 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -475,16 +475,20 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	} else {
 		// If not an iterator, check for slices, arrays, and pointers.
 		if slice, ok := ftyp.(*types.Slice); ok { // allows []T / []*T
-			ftyp = types.Unalias(slice.Elem())
+			rt.BaseType = slice.Elem()
 			rt.IsSlice = true
 		} else if array, ok := ftyp.(*types.Array); ok { // allows [N]T / [N]*T
-			ftyp = types.Unalias(array.Elem())
+			rt.BaseType = array.Elem()
 			rt.IsArray = true
 			rt.ArrayLen = array.Len()
 		}
+		if rt.BaseType != nil {
+			ftyp = types.Unalias(rt.BaseType)
+		}
 		if ptr, ok := ftyp.(*types.Pointer); ok { // allows *T
-			ftyp = types.Unalias(ptr.Elem())
+			rt.BaseType = ptr.Elem()
 			rt.IsPointer = true
+			ftyp = types.Unalias(rt.BaseType)
 		}
 
 		// Get the name of the base type, if applicable.
@@ -616,6 +620,7 @@ stackloop:
 				node.IsImported = typ.IsImported
 				node.IsPointer = (f.Type.Kind == TypeKindPtr)
 				node.Mode = parseFieldMode(tag)
+				rt.FieldMap[node] = FieldVar{Var: fvar, Tag: ftag}
 				loop2.selector = append(loop2.selector, node)
 
 				stack = append(stack, loop2)
@@ -751,11 +756,12 @@ func analyzeIteratorFunction(a *analysis, rt *RelType, sig *types.Signature) (ou
 		return nil, false
 	}
 
-	typ := types.Unalias(sig.Params().At(0).Type())
-	if ptr, ok := typ.(*types.Pointer); ok { // allows *T
-		typ = types.Unalias(ptr.Elem())
+	rt.BaseType = sig.Params().At(0).Type()
+	if ptr, ok := types.Unalias(rt.BaseType).(*types.Pointer); ok { // allows *T
+		rt.BaseType = ptr.Elem()
 		rt.IsPointer = true
 	}
+	typ := types.Unalias(rt.BaseType)
 
 	// Make sure that the argument type is a named struct type.
 	named, ok := typ.(*types.Named)
diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index 7638085..3ebe0c8 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -114,6 +114,9 @@ type (
 	RelType struct {
 		// Information on the "rel" field's base type.
 		Base TypeInfo
+		// The base type as it was declared, used to generate its name. Set
+		// only if the type is a slice, an array, a pointer, or an iterator.
+		BaseType types.Type `cmp:"-"`
 		// Indicates whether or not the base type's a pointer type.
 		IsPointer bool
 		// Indicates whether or not the base type's a slice type.
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 39379eb..4094d95 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -507,11 +507,10 @@ func buildQueryOutputInitRoot(g *generator, qs *analysis.QueryStruct) {
 		typ = qs.Result.Type
 	}
 
-	typeNode := GO.TypeNode(GO.Ident{typ.Base.Name})
-	if typ.Base.IsImported {
-		imp := addimport(g.file, typ.Base.PkgPath, typ.Base.PkgName)
-		typeNode = GO.QualifiedIdent{imp.name, typ.Base.Name}
+	if !typ.IsSlice && !typ.IsIter && !typ.IsPointer {
+		return
 	}
+	typeNode := makeTypeNode(g, typ.BaseType)
 
 	var rootinit GO.StmtNode
 	if !typ.IsSlice && !typ.IsIter && typ.IsPointer {
@@ -566,15 +565,12 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			if node.IsPointer && !done[key] && !input[key] {
-				typeNode := GO.TypeNode(GO.Ident{node.TypeName})
-				if node.IsImported {
-					imp := addimport(g.file, node.TypePkgPath, node.TypePkgName)
-					typeNode = GO.QualifiedIdent{imp.name, node.TypeName}
-				}
+				typ := g.info.Info.FieldMap[node].Var.Type()
+				ptr := typ.Underlying().(*types.Pointer)
 
 				init := GO.AssignStmt{Token: GO.Assign}
 				init.Lhs = fx
-				init.Rhs = GO.CallNewExpr{typeNode}
+				init.Rhs = GO.CallNewExpr{makeTypeNode(g, ptr.Elem())}
 				if ifnil {
 					cond := GO.BinaryExpr{Op: GO.BinaryEql, X: fx, Y: GO.Ident{"nil"}}
 					body := GO.BlockStmt{List: []GO.StmtNode{init}}
-- 
2.43.0


From b9cdb19b59d158d24cc612c315e86ddd522265da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 49/68] fix: escape backticks and carriage returns in the texts
 of generated queries

---
 internal/generator/generator.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 4094d95..419b44c 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -671,7 +671,7 @@ func addConverterCallExpr(g *generator, x GO.ExprNode, converter string) GO.Expr
 func addCoalesceCallExpr(x SQL.ValueExpr, val string, c *postgres.Column) SQL.ValueExpr {
 	if len(val) > 0 {
 		cast := SQL.CastExpr{}
-		cast.Expr = SQL.Literal{val}
+		cast.Expr = SQL.Literal{fmtRawText(val)}
 		cast.Type = c.Type.NameFmt
 
 		coalesce := SQL.Coalesce{}
@@ -1272,8 +1272,8 @@ func buildSQLOnConflictClause(g *generator, qs *analysis.QueryStruct) {
 	switch ct := g.info.Conflict.Target.(type) {
 	case *postgres.ConflictIndex:
 		target := SQL.ConflictIndex{}
-		target.Expr = ct.Expression
-		target.Pred = ct.Predicate
+		target.Expr = fmtRawText(ct.Expression)
+		target.Pred = fmtRawText(ct.Predicate)
 		g.onConflictClause.Target = target
 	case *postgres.ConflictConstraint:
 		g.onConflictClause.Target = SQL.ConflictConstraint(ct.Name)
@@ -1404,7 +1404,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				if !cond.RHSColIdent.IsEmpty() {
 					rhs = makeColRef(cond.RHSColIdent)
 				} else if len(cond.RHSLiteral) > 0 {
-					rhs = SQL.Literal{cond.RHSLiteral}
+					rhs = SQL.Literal{fmtRawText(cond.RHSLiteral)}
 				}
 			}
 
@@ -2471,6 +2471,12 @@ func canNameType(g *generator, typ types.Type) bool {
 	return true
 }
 
+// fmtRawText formats text so that it can be part of a raw string literal.
+func fmtRawText(s string) string {
+	s = strings.ReplaceAll(s, "`", "` + \"`\" + `")
+	return strings.ReplaceAll(s, "\r", "` + \"\\r\" + `")
+}
+
 // makeColRef
 func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
 	return SQL.ColumnReference{
-- 
2.43.0


From 5b0bb8fa3db19d159287583e4c895ac2febe7e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 50/68] fix: ignore blank filter constructors, reject blank
 relation fields and joins without a relation

---
 internal/analysis/analysis.go | 13 +++++++++++--
 internal/analysis/error.go    | 13 +++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 56c8316..46ad8ff 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -211,7 +211,7 @@ func analyzeFilterStruct(a *analysis, structType *types.Struct) (*FilterStruct,
 			}
 		} else {
 			// fields with specific names / types
-			if typesutil.ImplementsGosqlFilterConstructor(fvar.Type()) {
+			if fvar.Name() != "_" && typesutil.ImplementsGosqlFilterConstructor(fvar.Type()) {
 				if err := analyzeFilterConstructorField(a, fvar, ftag); err != nil {
 					return nil, err
 				}
@@ -325,6 +325,11 @@ func analyzeQueryStructRelField(a *analysis, f *types.Var, ftag, reltag string)
 	a.query.Rel.FieldName = f.Name()
 	a.query.Rel.Id = rid
 
+	// a field with the blank name can be neither read nor written by the query
+	if f.Name() == "_" && a.query.Kind != QueryKindDelete {
+		return a.error(errIllegalQueryField, f, "", ftag, "", "")
+	}
+
 	switch fname := strings.ToLower(a.query.Rel.FieldName); {
 	default:
 		if err := analyzeRelType(a, &a.query.Rel.Type, f); err != nil {
@@ -1126,6 +1131,10 @@ func analyzeJoinStruct(a *analysis, f *types.Var, tag string) (err error) {
 
 	}
 
+	if fname != "join" && join.Relation == nil {
+		return a.error(errMissingRelationDirective, f, "", tag, "", "")
+	}
+
 	a.query.Join = join
 	a.info.FieldMap[a.query.Join] = FieldVar{Var: f, Tag: tag}
 	return nil
@@ -1677,7 +1686,7 @@ func analyzeOverrideDirective(a *analysis, f *types.Var, tag string) (err error)
 }
 
 func analyzeReturnDirective(a *analysis, f *types.Var, tag string) error {
-	if len(a.query.Rel.Type.Fields) == 0 {
+	if len(a.query.Rel.Type.Fields) == 0 || a.query.Rel.FieldName == "_" {
 		return a.error(errMissingRelField, f, "", tag, "", "") // TODO test
 	}
 	if a.query.Kind != QueryKindInsert && a.query.Kind != QueryKindUpdate && a.query.Kind != QueryKindDelete {
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index f00b154..a630afe 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -221,6 +221,8 @@ const (
 	errMissingTagColumnList
 	errMissingOnConflictTarget
 	errMissingFilterConstructor
+	errMissingRelationDirective
+	errMissingWhereItem
 	errRecursiveFieldStruct
 	errBadIdentTagValue
 	errBadColIdTagValue
@@ -431,6 +433,17 @@ var error_template_string = `
         - The {{Ci "gosql.Constraint"}} directive.
 {{ end }}
 
+{{ define "` + errMissingRelationDirective.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Missing relation directive."}}
+    The {{R .FieldName}} struct field in {{Wb .TargetName}} is missing a {{Ci "gosql.Relation"}} directive.
+    {{Wb "FIX:"}} Make sure that {{R .FieldName}} in {{Wb .TargetName}} has {{Wb "exactly one"}} {{Ci "gosql.Relation"}} directive.
+{{ end }}
+
+{{ define "` + errMissingWhereItem.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Missing conditions."}}
+    The nested {{R .FieldName}} field of the {{R .BlockName}} struct in {{Wb .TargetName}} has no fields that produce a condition.
+{{ end }}
+
 {{ define "` + errMissingFilterConstructor.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Missing filter constructor field."}}
     The {{R .TargetName}} struct type has no field that implements the "gosql.FilterConstructor" interface.
-- 
2.43.0


From 89be1bd53fd538176b3fd40066b3c722b07b6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:00 +0000
Subject: [PATCH 51/68] fix: ignore the fields of blank where groups, reject
 groups without conditions

---
 internal/analysis/analysis.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 46ad8ff..9e6f9e5 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -807,6 +807,7 @@ func analyzeWhereStruct(a *analysis, f *types.Var, tag string) (err error) {
 		items []WhereItem
 		ns    *typesutil.NamedStruct // the struct type of the WhereStruct
 		idx   int                    // keeps track of the field index
+		blank bool                   // the WhereStruct, or one that it's nested in, has the blank name
 	}
 
 	// root holds the reference to the root level search conditions
@@ -835,13 +836,14 @@ stackloop:
 			// Skip the field if it's unexported and the ns.Struct's
 			// type is imported. Unless it is one of the directive
 			// fields that do not require direct access at runtime.
-			if fvar.Name() != "_" && !isAccessible(a, fvar, ns.Named) {
+			if fvar.Name() != "_" && !isAccessible(a, fvar, loop.ns.Named) {
 				continue
 			}
 
-			// Of the blank fields only the gosql.Column directives
-			// and the nested fields are items.
-			if fvar.Name() == "_" && sqltag != ">" && !typesutil.IsDirective("Column", fvar.Type()) {
+			// Of the blank fields, and the fields of blank fields, only
+			// the gosql.Column directives and the nested fields are items.
+			isdir := fvar.Name() == "_" && typesutil.IsDirective("Column", fvar.Type())
+			if (fvar.Name() == "_" || loop.blank) && sqltag != ">" && !isdir {
 				continue
 			}
 
@@ -873,6 +875,7 @@ stackloop:
 				loop2.ns = ns
 				loop2.where = new(WhereStruct)
 				loop2.where.FieldName = fvar.Name()
+				loop2.blank = loop.blank || fvar.Name() == "_"
 				loop.items = append(loop.items, loop2.where)
 
 				a.info.FieldMap[loop2.where] = FieldVar{Var: fvar, Tag: ftag}
@@ -1058,6 +1061,12 @@ stackloop:
 
 		if loop.where != nil {
 			loop.where.Items = loop.items
+
+			// nothing can be put between the parentheses
+			if len(loop.items) == 0 {
+				fv := a.info.FieldMap[loop.where]
+				return a.error(errMissingWhereItem, fv.Var, f.Name(), fv.Tag, "", "")
+			}
 		}
 
 		stack = stack[:len(stack)-1]
-- 
2.43.0


From 9be77f0f6643d8b67e1b6ee3e0c121ca356460c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:04 +0000
Subject: [PATCH 52/68] fix: forget the pointer mark of an argument type given
 before, accept dashes and one-letter paths in object identifiers

---
 internal/config/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/config/types.go b/internal/config/types.go
index b8a3a04..2f01268 100644
--- a/internal/config/types.go
+++ b/internal/config/types.go
@@ -183,7 +183,7 @@ func (t *GoType) Set(value string) error {
 	if i := strings.LastIndex(value, "."); i < 0 {
 		return fmt.Errorf("bad method argument type: %q", value)
 	} else {
-		t.PkgPath, t.Name = value[:i], value[i+1:]
+		t.PkgPath, t.Name, t.IsPtr = value[:i], value[i+1:], false
 		if len(t.PkgPath) > 0 && t.PkgPath[0] == '*' {
 			t.PkgPath = t.PkgPath[1:]
 			t.IsPtr = true
@@ -232,7 +232,7 @@ func (id ObjectIdent) String() string {
 	return v
 }
 
-var rxObjId = regexp.MustCompile(`^\w[\w\.-/]*\w\.[A-Za-z_]\w*$`)
+var rxObjId = regexp.MustCompile(`^\w(?:[\w\./-]*\w)?\.[A-Za-z_]\w*$`)
 
 // Set implements the flag.Value interface.
 func (id *ObjectIdent) Set(value string) error {
-- 
2.43.0


From 144dc6033629719720c97843a4df3370a5031109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:34 +0000
Subject: [PATCH 53/68] fix: format generated code before the output file is
 created

---
 internal/command/command.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/command/command.go b/internal/command/command.go
index cc94378..242abf6 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -129,6 +129,12 @@ type outFile struct {
 }
 
 func (cmd *Command) writeOutFile(out *outFile) (err error) {
+	// make it look pretty, before the file is touched
+	bs, err := format.Source(out.buf.Bytes())
+	if err != nil {
+		return err
+	}
+
 	f, err := os.Create(out.path)
 	if err != nil {
 		return err
@@ -140,12 +146,6 @@ func (cmd *Command) writeOutFile(out *outFile) (err error) {
 		}
 	}()
 
-	// make it look pretty
-	bs, err := format.Source(out.buf.Bytes())
-	if err != nil {
-		return err
-	}
-
 	buf := bytes.NewBuffer(bs)
 	if _, err := io.Copy(f, buf); err != nil {
 		return err
-- 
2.43.0


From 0c2f8303360830f82f31f17eab1185aa7683da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:00 +0000
Subject: [PATCH 54/68] fix: reject output file name formats that name the
 input file

---
 internal/config/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9f15135..ece05b5 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -275,6 +275,10 @@ func (c *Config) Validate() (err error) {
 	} else if n > 1 || (n == 1 && !strings.Contains(c.OutputFileNameFormat.Value, "%s")) {
 		return fmt.Errorf("bad output filename format: %q", c.OutputFileNameFormat.Value)
 	}
+	// the output must not replace the input
+	if f := c.OutputFileNameFormat.Value; f == "%s" || f == "%s.go" {
+		return fmt.Errorf("bad output filename format: %q -- names the input file", f)
+	}
 
 	// check the filter column key configuration for errors
 	rxFCKTag := regexp.MustCompile(`^(?:[A-Za-z_]\w*)?$`)
-- 
2.43.0


From c733e78543cd008f3ed2cea1e5343ef58d3ee115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 55/68] fix: skip types that are no structs in the search for
 targets, reject targets with type parameters

---
 internal/analysis/analysis.go | 5 +++++
 internal/analysis/error.go    | 6 ++++++
 internal/search/search.go     | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 9e6f9e5..94cbfde 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -111,6 +111,11 @@ func Run(fset *token.FileSet, named *types.Named, pos token.Pos, cfg config.Conf
 	a.info.FieldMap = make(map[FieldPtr]FieldVar)
 	a.info.RelSpace = make(map[string]RelIdent)
 
+	// the methods are generated for the one type
+	if named.TypeParams().Len() > 0 {
+		return nil, a.error(errIllegalTypeParams, nil, "", "", "", "")
+	}
+
 	if strings.HasPrefix(strings.ToLower(named.Obj().Name()), "filter") {
 		s, err := analyzeFilterStruct(a, structType)
 		if err != nil {
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index a630afe..9a7e4bc 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -223,6 +223,7 @@ const (
 	errMissingFilterConstructor
 	errMissingRelationDirective
 	errMissingWhereItem
+	errIllegalTypeParams
 	errRecursiveFieldStruct
 	errBadIdentTagValue
 	errBadColIdTagValue
@@ -444,6 +445,11 @@ var error_template_string = `
     The nested {{R .FieldName}} field of the {{R .BlockName}} struct in {{Wb .TargetName}} has no fields that produce a condition.
 {{ end }}
 
+{{ define "` + errIllegalTypeParams.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Illegal type parameters."}}
+    The {{R .TargetName}} struct type has type parameters.
+{{ end }}
+
 {{ define "` + errMissingFilterConstructor.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Missing filter constructor field."}}
     The {{R .TargetName}} struct type has no field that implements the "gosql.FilterConstructor" interface.
diff --git a/internal/search/search.go b/internal/search/search.go
index 1fce5a9..6357bef 100644
--- a/internal/search/search.go
+++ b/internal/search/search.go
@@ -123,6 +123,9 @@ func Search(dir string, recursive bool, filter func(filePath string) bool) (out
 					if !ok {
 						continue
 					}
+					if _, ok := named.Underlying().(*types.Struct); !ok {
+						continue
+					}
 
 					match := new(Match)
 					match.Named = named
-- 
2.43.0


From 4db43a66fb0c25d862cde773badca1a4ae6ac9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:45 +0000
Subject: [PATCH 56/68] fix: reject pointers to interfaces as argument types,
 see through aliases of them

---
 internal/config/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index ece05b5..21e289c 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -387,10 +387,13 @@ func checkMethodArgumentType(t *GoType, c *Config) (err error) {
 					return fmt.Errorf("bad method argument type: %q", t)
 				}
 
-				named, ok := typeName.Type().(*types.Named)
-				if !ok {
+				named, ok := types.Unalias(typeName.Type()).(*types.Named)
+				if !ok || named.TypeParams().Len() > named.TypeArgs().Len() {
 					return fmt.Errorf("bad method argument type: %q", t)
 				}
+				if types.IsInterface(named) && t.IsPtr {
+					return fmt.Errorf("bad method argument type: %q -- pointer to an interface", t)
+				}
 
 				if !typesutil.ImplementsGosqlConn(named) {
 					return fmt.Errorf("bad method argument type: %q --"+
-- 
2.43.0


From b5223b09958bba59f700b24e0193cef8c3fd8617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:58 +0000
Subject: [PATCH 57/68] fix: report failed catalog queries and columns of
 unknown types instead of panicking

---
 internal/postgres/errors.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index fe07249..f3d594b 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -271,7 +271,7 @@ var error_template_string = `
 Helper templates
 --------------------------------------------------------------------------------
 {{ define "external_error_issue" }}
-    - original error message: "{{Wb .Error.Error}}"
+    - original error message: "{{Wb .Err.Error}}"
     - please consider opening an issue if the error persists.
 {{ end }}
 
@@ -288,7 +288,7 @@ Database error templates
 {{ define "` + errDatabaseOpen.name() + `" -}}
 ERROR: {{Y "Failed to initialize database connection."}}
     An error occurred during the initialization of the database connection for the provided DSN "{{R .DB.DSN}}".
-    - original error message: "{{Wb .Error.Error}}"
+    - original error message: "{{Wb .Err.Error}}"
 {{ end }}
 
 {{ define "` + errDatabaseInit.name() + `" -}}
@@ -384,7 +384,7 @@ Relation error templates
 {{ define "` + errRelationColumnUnknownType.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Unknown column type."}}
     {{W "github.com/frk/gosql"}} is unable to retrieve the type information for column "{{R .Col.Name}}" in relation "{{R .Rel.Ref}}".
-    The column type's OID: {{R .Col.TypeOID}}
+    The column type's OID: {{R (printf "%d" .Col.TypeOID)}}
     Please consider opening an issue if the error persists.
 {{ end }}
 
@@ -606,7 +606,7 @@ On Conflict error templates
 
 {{ define "` + errPrimaryKeyMissing.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Missing primary key."}}
-    The type of the field "{{R .Field.Definition}}" does not contain the primary key of the relation "{{R .Rel.Id}}".
+    The type of the field "{{R .Field.Definition}}" does not contain the primary key of the relation "{{R .Rel.Ref}}".
     - an UPDATE without a WHERE struct, gosql.Filter field, or gosql.All directive requires the primary key.
 {{ end }}
 
-- 
2.43.0


From 803be28b256f748687585ba30fa6cba6c8c827ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:58 +0000
Subject: [PATCH 58/68] fix: keep columns that a primary key only includes out
 of the key

---
 internal/postgres/postgres.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index e79287e..0d8009f 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1890,7 +1890,14 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 			Rel: relInfo{Id: rid}, Err: err}, ptr)
 	}
 
-	const selectRelationColumns = `SELECT
+	// Since v11 indkey also holds the columns that are only included in the
+	// index, those are not part of the index's key.
+	numKeyAtts := "i.indnkeyatts"
+	if db.version < 110000 {
+		numKeyAtts = "i.indnatts"
+	}
+
+	selectRelationColumns := `SELECT
 		a.attnum
 		, a.attname
 		, a.atttypmod
@@ -1903,7 +1910,7 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 	LEFT JOIN pg_index i ON (
 		i.indisprimary
 		AND i.indrelid = a.attrelid
-		AND a.attnum = ANY(i.indkey)
+		AND a.attnum = ANY(i.indkey[0:` + numKeyAtts + `-1])
 	)
 	WHERE a.attrelid = $1
 	AND a.attnum > 0
@@ -1989,13 +1996,6 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 			Rel: relInfo{Id: rid, Relation: rel}, Err: err}, ptr)
 	}
 
-	// Since v11 indkey also holds the columns that are only included in the
-	// index, those are not part of the index's key.
-	numKeyAtts := "i.indnkeyatts"
-	if db.version < 110000 {
-		numKeyAtts = "i.indnatts"
-	}
-
 	selectRelationIndexes := `SELECT
 		c.oid
 		, c.relname
-- 
2.43.0


From 22a8d143c0cba141226f6058bda678a8ec045840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:58 +0000
Subject: [PATCH 59/68] fix: offer functions whose names begin with pg but not
 pg_

---
 internal/postgres/postgres.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 0d8009f..dd4a1c2 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1792,8 +1792,8 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 			, p.prokind = 'a'
 		FROM pg_proc p
 		WHERE p.pronargs = 1
-		AND p.proname NOT LIKE 'pg_%'
-		AND p.proname NOT LIKE '_pg_%'
+		AND p.proname NOT LIKE 'pg\_%'
+		AND p.proname NOT LIKE '\_pg\_%'
 		` //`
 	} else {
 		// pre v11
@@ -1805,8 +1805,8 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 			, p.proisagg
 		FROM pg_proc p
 		WHERE p.pronargs = 1
-		AND p.proname NOT LIKE 'pg_%'
-		AND p.proname NOT LIKE '_pg_%'
+		AND p.proname NOT LIKE 'pg\_%'
+		AND p.proname NOT LIKE '\_pg\_%'
 		` //`
 	}
 	rows, err = db.Query(selectProcs)
-- 
2.43.0


From 1b8562af4a68826933479f6b4017836d68fed7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:06 +0000
Subject: [PATCH 60/68] fix: treat the columns of partitioned and foreign
 tables as nullable unless they are declared NOT NULL

---
 internal/postgres/types.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/types.go b/internal/postgres/types.go
index 53b1474..44e2637 100644
--- a/internal/postgres/types.go
+++ b/internal/postgres/types.go
@@ -390,8 +390,14 @@ func (t *Type) GetNameFmt() string {
 }
 
 func (c *Column) IsNULLable() bool {
-	return c.Relation != nil && c.Relation.RelKind == RelKindOrdinaryTable &&
-		c.HasNotNull == false
+	if c.Relation == nil || c.HasNotNull {
+		return false
+	}
+	switch c.Relation.RelKind {
+	case RelKindOrdinaryTable, RelKindPartitionedTable, RelKindForeignTable:
+		return true
+	}
+	return false
 }
 
 func (f *FieldFilter) TreatAsNULLable() bool {
-- 
2.43.0


From 3e0a26edd90972b217251698ce3781df622ae7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:32 +0000
Subject: [PATCH 61/68] fix: read inet arrays with converters that scan

---
 internal/postgres/compatibility.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/compatibility.go b/internal/postgres/compatibility.go
index 115333b..80ba236 100644
--- a/internal/postgres/compatibility.go
+++ b/internal/postgres/compatibility.go
@@ -215,8 +215,8 @@ func init_oid2literal() map[compkey]map[analysis.LiteralType]compentry {
 			analysis.LiteralByteSlice: {},
 		},
 		{oid: oid.InetArr}: {
-			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayFromIPSlice"},
-			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayFromIPNetSlice"},
+			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayToIPSlice"},
+			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayToIPNetSlice"},
 			analysis.LiteralString:     {},
 			analysis.LiteralByteSlice:  {},
 		},
-- 
2.43.0


From 81398a121e0f414a2a2bfc00649b9ae2d8bca424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:32 +0000
Subject: [PATCH 62/68] fix: accept columns of length 1 for the types that any
 length is accepted for

---
 internal/postgres/postgres.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index dd4a1c2..c4ecadc 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2089,6 +2089,13 @@ func typeCompatibility(c *checker, ctyp *Type, ftyp analysis.TypeInfo, typmod1 b
 		return &comp
 	}
 
+	// a type of length 1 is otherwise no different from one of any other length
+	if key.typmod1 = false; typmod1 {
+		if comp, ok := compatibility.oid2literal[key][lit]; ok {
+			return &comp
+		}
+	}
+
 	// try to salvage this
 	if ctyp.Category == TypeCategoryString || ctyp.Category == TypeCategoryArray {
 		if ctyp.Category == TypeCategoryString {
-- 
2.43.0


From c00703180bd10ffcdf273405eaf9c479e4f0db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 63/68] fix: do not take types of namesake packages for those
 of the standard library

---
 internal/analysis/analysis.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 94cbfde..96f7c40 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2335,10 +2335,22 @@ func (t *TypeInfo) Literal() LiteralType {
 	return t.literal(false, true)
 }
 
+// literalPkgPaths maps the names of the packages whose types occur
+// in the LiteralType constants to the paths of those packages.
+var literalPkgPaths = map[string]string{
+	"big":  "math/big",
+	"net":  "net",
+	"sql":  "database/sql",
+	"time": "time",
+}
+
 func (t *TypeInfo) literal(pkgLocal, elidePtr bool) LiteralType {
 	if len(t.Name) > 0 {
 		if pkgLocal && len(t.PkgLocal) > 0 && t.PkgLocal != "." {
 			return LiteralType(t.PkgLocal + "." + t.Name)
+		} else if path, ok := literalPkgPaths[t.PkgName]; ok && path != t.PkgPath {
+			// not the standard library's package, only its namesake
+			return LiteralType(t.PkgPath + "." + t.Name)
 		} else if len(t.PkgName) > 0 {
 			return LiteralType(t.PkgName + "." + t.Name)
 		}
-- 
2.43.0


From 7ea5feaede814e943a06a8b6820a1fbcf46f561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:46 +0000
Subject: [PATCH 64/68] fix: read the address of an inet that has a prefix
 length into a net.IP

---
 pgsql/inet.go    | 2 +-
 pgsql/inetarr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgsql/inet.go b/pgsql/inet.go
index 913b9a1..9751adb 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -83,6 +83,6 @@ func (v inetToIP) Scan(src interface{}) error {
 		return nil
 	}
 
-	*v.val = net.ParseIP(str)
+	*v.val = pgParseInet(str).IP
 	return nil
 }
diff --git a/pgsql/inetarr.go b/pgsql/inetarr.go
index 70cae2e..0dffba1 100644
--- a/pgsql/inetarr.go
+++ b/pgsql/inetarr.go
@@ -117,7 +117,7 @@ func (v inetArrayToIPSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	ips := make([]net.IP, len(elems))
 	for i := 0; i < len(elems); i++ {
-		ips[i] = net.ParseIP(string(elems[i]))
+		ips[i] = pgParseInet(string(elems[i])).IP
 	}
 
 	*v.val = ips
-- 
2.43.0


From 34281b5c0a63e60be7e725277e916cdbce37dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:15 +0000
Subject: [PATCH 65/68] fix: look a relation up by its name as it is quoted in
 the generated queries

---
 internal/postgres/postgres.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index c4ecadc..aea6165 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1880,7 +1880,12 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 	FROM pg_class c
 	LEFT JOIN pg_namespace ns ON ns.oid = c.relnamespace
 	WHERE c.oid = to_regclass($1)` //`
-	row := db.QueryRow(selectRelationInfo, rid.QualifiedName())
+	// The generated queries quote the name, but not the qualifier.
+	name := `"` + rid.Name + `"`
+	if len(rid.Qualifier) > 0 {
+		name = rid.Qualifier + "." + name
+	}
+	row := db.QueryRow(selectRelationInfo, name)
 	if err := row.Scan(&rel.OID, &rel.Name, &rel.RelKind, &rel.Schema); err != nil {
 		if err == sql.ErrNoRows {
 			return nil, c.dbError(dbError{Code: errRelationUnknown,
-- 
2.43.0


From 441612a5ef0524374653076ba9a1c02068315f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:11 +0000
Subject: [PATCH 66/68] fix: keep the case of a text-search column's name

The tag of a gosql.TextSearch directive was lowercased, other than the tags
that name other columns, so a column whose name has capital letters was either
not found or another one was searched.
---
 internal/analysis/analysis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 96f7c40..ba7b244 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1830,7 +1830,7 @@ func analyzeTextSearchDirective(a *analysis, f *types.Var, tag string) error {
 	}
 
 	tval := tagutil.New(tag).First("sql")
-	tval = strings.ToLower(strings.TrimSpace(tval))
+	tval = strings.TrimSpace(tval)
 
 	cid, ecode, eval := parseColIdent(a, tval)
 	if ecode > 0 {
-- 
2.43.0


From 4e034606980ab3f8ac00ae64260fbd1feeae32f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:34 +0000
Subject: [PATCH 67/68] fix: convert the elements of the lists of IN predicates
 one by one

A slice field with an isin or notin predicate was checked as if it was sent as
an array, and its elements were then sent as they are: those of types that
need a converter, such as [16]byte, failed, and bytes and runes compared with
a character column were sent as numbers.
---
 internal/generator/generator.go |  7 ++++++-
 internal/postgres/postgres.go   | 12 ++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 419b44c..b1a9a55 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -116,6 +116,8 @@ type generator struct {
 	// List of selector expressions for fields that containin slices that
 	// will be used as input for [NOT] IN clauses.
 	inputSliceArgs []GO.SelectorExpr
+	// The converters for the elements of the inputSliceArgs, if they need any.
+	inputSliceValuers []string
 	// The list of target columns to be set by the sql query (INSERT|UPDATE).
 	inputCols      SQL.NameGroup
 	inputColsPKeys SQL.NameGroup
@@ -1370,6 +1372,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				pred       analysis.Predicate
 				qua        analysis.Quantifier
 				fieldName  string
+				valuer     string
 				columnType string
 			)
 
@@ -1377,6 +1380,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 			switch cond := cond.(type) {
 			case *postgres.FieldConditional:
 				fieldName = cond.FieldName // needed for isin/notin predicates
+				valuer = cond.Valuer       // same
 				pred = cond.Predicate
 				qua = cond.Quantifier
 				lhs = makeColRef(cond.ColIdent)
@@ -1474,6 +1478,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				}
 				sx := GO.SelectorExpr{X: sx, Sel: GO.Ident{fieldName}}
 				g.inputSliceArgs = append(g.inputSliceArgs, sx)
+				g.inputSliceValuers = append(g.inputSliceValuers, valuer)
 				g.paramNum -= 1 // ordinal param won't be used directly
 
 				num := strconv.Itoa(len(g.inputSliceArgs))
@@ -1805,7 +1810,7 @@ func buildQueryStringForSliceArgs(g *generator, qs *analysis.QueryStruct) {
 
 		assign := GO.AssignStmt{Token: GO.Assign}
 		assign.Lhs = GO.IndexExpr{X: paramsVar, Index: binExpr}
-		assign.Rhs = GO.IndexExpr{X: arg, Index: iVar}
+		assign.Rhs = addConverterCallExpr(g, GO.IndexExpr{X: arg, Index: iVar}, g.inputSliceValuers[i])
 
 		forLoop.Body = GO.BlockStmt{List: []GO.StmtNode{assign}}
 		stmtList = append(stmtList, forLoop)
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index aea6165..bf76fac 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -758,6 +758,10 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		oprname = predicateToOprname[cond.Predicate]
 	)
 
+	if cond.Predicate.IsArray() && ftyp.Elem != nil { // the elements are sent one by one
+		ftyp = *ftyp.Elem
+	}
+
 	// XXX(mkopriva): not sure this is the correct approach ...
 	// The checker can either trust the user to provide a value in the correct
 	// format, or it could "request" more information by specifying that some
@@ -775,14 +779,18 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		// FIXME(mkopriva): this currently breaks for custom types like
 		// enums. Must figure out how to find the oid of a custom type...
 		id, ok := oid.TypeToArray[cond.Column.Type.OID]
+		var arr *Type
 		if ok {
-			ctyp, ok = c.db.catalog.Types[id]
+			arr, ok = c.db.catalog.Types[id]
 		}
 		if !ok && cond.Predicate.IsArray() {
 			return errPredicateOperandArray
 		} else if !ok && cond.Quantifier > 0 {
 			return errPredicateOperandQuantifier
 		}
+		if cond.Quantifier > 0 {
+			ctyp = arr
+		}
 	}
 
 	key := OpKey{Left: coid, Right: coid, Name: oprname}
@@ -802,7 +810,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		}
 
 		id := key.Right
-		if cond.Predicate.IsArray() || cond.Quantifier > 0 {
+		if cond.Quantifier > 0 {
 			// the operator is applied to the array's elements
 			if id = oid.TypeToArray[key.Right]; id == 0 {
 				continue
-- 
2.43.0


From e24cf9dd003d11a5dfa94cf2135ae714e10c55f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:06 +0000
Subject: [PATCH 68/68] fix: read JSON and XML documents that the driver
 delivers as strings

---
 pgsql/json.go | 7 ++++---
 pgsql/xml.go  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pgsql/json.go b/pgsql/json.go
index 4f8138c..005f628 100644
--- a/pgsql/json.go
+++ b/pgsql/json.go
@@ -28,8 +28,9 @@ func (j jsontype) Value() (driver.Value, error) {
 }
 
 func (j jsontype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return json.Unmarshal(b, j.val)
+	b, err := srcbytes(src)
+	if err != nil || b == nil {
+		return err
 	}
-	return nil
+	return json.Unmarshal(b, j.val)
 }
diff --git a/pgsql/xml.go b/pgsql/xml.go
index dac30b4..696fa7b 100644
--- a/pgsql/xml.go
+++ b/pgsql/xml.go
@@ -21,10 +21,11 @@ type xmltype struct {
 }
 
 func (x xmltype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return xml.Unmarshal(b, x.val)
+	b, err := srcbytes(src)
+	if err != nil || b == nil {
+		return err
 	}
-	return nil
+	return xml.Unmarshal(b, x.val)
 }
 
 func (x xmltype) Value() (driver.Value, error) {
-- 
2.43.0

