package pgsql

import (
	"database/sql"
)

// vpNilSlice scans NULL into a slice that holds the previous row's elements.
func vpNilSlice[S ~[]E, E any](name string, mk func(*S) sql.Scanner) {
	v := make(S, 1+vpChoose(2), 4)
	err := mk(&v).Scan(nil)
	vpAssert(err == nil, "scanning NULL reports no error")
	vpAssert(v == nil, name+": scanning NULL leaves a slice nil whatever it held before")
}

func vpNilMap[V any](name string, mk func(*map[string]V) sql.Scanner) {
	var z V
	v := map[string]V{"previous": z}
	if vpBool() {
		v = map[string]V{}
	}
	err := mk(&v).Scan(nil)
	vpAssert(err == nil, "scanning NULL reports no error")
	vpAssert(v == nil, name+": scanning NULL leaves a map nil whatever it held before")
}

func vpNilAny(name string, mk func(*interface{}) sql.Scanner) {
	var v interface{} = "previous"
	err := mk(&v).Scan(nil)
	vpAssert(err == nil, "scanning NULL reports no error")
	vpAssert(v == nil, name+": scanning NULL leaves an interface nil whatever it held before")
}

func VP_P15_Nil1() {
	vpReach("null")
	switch vpChoose(24) {
	case 0:
		vpNilAny("AnyToEmptyInterface", AnyToEmptyInterface)
	case 1:
		vpNilSlice("BPCharArrayToByteSlice", BPCharArrayToByteSlice)
	case 2:
		vpNilSlice("BPCharArrayToRuneSlice", BPCharArrayToRuneSlice)
	case 3:
		vpNilSlice("BPCharArrayToStringSlice", BPCharArrayToStringSlice)
	case 4:
		vpNilSlice("BitArrayToBoolSlice", BitArrayToBoolSlice)
	case 5:
		vpNilSlice("BitArrayToUint8Slice", BitArrayToUint8Slice)
	case 6:
		vpNilSlice("BitArrayToUintSlice", BitArrayToUintSlice)
	case 7:
		vpNilSlice("BoolArrayToBoolSlice", BoolArrayToBoolSlice)
	case 8:
		vpNilSlice("BoxArrayToFloat64Array2Array2Slice", BoxArrayToFloat64Array2Array2Slice)
	case 9:
		vpNilSlice("ByteaArrayToByteSliceSlice", ByteaArrayToByteSliceSlice)
	case 10:
		vpNilSlice("ByteaArrayToStringSlice", ByteaArrayToStringSlice)
	case 11:
		vpNilSlice("CIDRArrayToIPNetSlice", CIDRArrayToIPNetSlice)
	case 12:
		vpNilSlice("CharArrayToByteSlice", CharArrayToByteSlice)
	case 13:
		vpNilSlice("CharArrayToRuneSlice", CharArrayToRuneSlice)
	case 14:
		vpNilSlice("CharArrayToStringSlice", CharArrayToStringSlice)
	case 15:
		vpNilSlice("DateArrayToTimeSlice", DateArrayToTimeSlice)
	case 16:
		vpNilSlice("DateRangeArrayToTimeArray2Slice", DateRangeArrayToTimeArray2Slice)
	case 17:
		vpNilSlice("DateToByteSlice", DateToByteSlice)
	case 18:
		vpNilSlice("Float4ArrayToFloat32Slice", Float4ArrayToFloat32Slice)
	case 19:
		vpNilSlice("Float4ArrayToFloat64Slice", Float4ArrayToFloat64Slice)
	case 20:
		vpNilSlice("Float8ArrayToFloat32Slice", Float8ArrayToFloat32Slice)
	case 21:
		vpNilSlice("Float8ArrayToFloat64Slice", Float8ArrayToFloat64Slice)
	case 22:
		vpNilSlice("HStoreArrayToNullStringMapSlice", HStoreArrayToNullStringMapSlice)
	default:
		vpNilSlice("HStoreArrayToStringMapSlice", HStoreArrayToStringMapSlice)
	}
}

func VP_P15_Nil2() {
	vpReach("null")
	switch vpChoose(24) {
	case 0:
		vpNilSlice("HStoreArrayToStringPtrMapSlice", HStoreArrayToStringPtrMapSlice)
	case 1:
		vpNilMap("HStoreToNullStringMap", HStoreToNullStringMap)
	case 2:
		vpNilMap("HStoreToStringMap", HStoreToStringMap)
	case 3:
		vpNilMap("HStoreToStringPtrMap", HStoreToStringPtrMap)
	case 4:
		vpNilSlice("InetArrayToIPNetSlice", InetArrayToIPNetSlice)
	case 5:
		vpNilSlice("InetArrayToIPSlice", InetArrayToIPSlice)
	case 6:
		vpNilSlice("InetToIP", InetToIP)
	case 7:
		vpNilSlice("Int2ArrayToFloat32Slice", Int2ArrayToFloat32Slice)
	case 8:
		vpNilSlice("Int2ArrayToFloat64Slice", Int2ArrayToFloat64Slice)
	case 9:
		vpNilSlice("Int2ArrayToInt16Slice", Int2ArrayToInt16Slice)
	case 10:
		vpNilSlice("Int2ArrayToInt32Slice", Int2ArrayToInt32Slice)
	case 11:
		vpNilSlice("Int2ArrayToInt64Slice", Int2ArrayToInt64Slice)
	case 12:
		vpNilSlice("Int2ArrayToInt8Slice", Int2ArrayToInt8Slice)
	case 13:
		vpNilSlice("Int2ArrayToIntSlice", Int2ArrayToIntSlice)
	case 14:
		vpNilSlice("Int2ArrayToUint16Slice", Int2ArrayToUint16Slice)
	case 15:
		vpNilSlice("Int2ArrayToUint32Slice", Int2ArrayToUint32Slice)
	case 16:
		vpNilSlice("Int2ArrayToUint64Slice", Int2ArrayToUint64Slice)
	case 17:
		vpNilSlice("Int2ArrayToUint8Slice", Int2ArrayToUint8Slice)
	case 18:
		vpNilSlice("Int2ArrayToUintSlice", Int2ArrayToUintSlice)
	case 19:
		vpNilSlice("Int2VectorArrayToFloat32SliceSlice", Int2VectorArrayToFloat32SliceSlice)
	case 20:
		vpNilSlice("Int2VectorArrayToFloat64SliceSlice", Int2VectorArrayToFloat64SliceSlice)
	case 21:
		vpNilSlice("Int2VectorArrayToInt16SliceSlice", Int2VectorArrayToInt16SliceSlice)
	case 22:
		vpNilSlice("Int2VectorArrayToInt32SliceSlice", Int2VectorArrayToInt32SliceSlice)
	default:
		vpNilSlice("Int2VectorArrayToInt64SliceSlice", Int2VectorArrayToInt64SliceSlice)
	}
}

func VP_P15_Nil3() {
	vpReach("null")
	switch vpChoose(24) {
	case 0:
		vpNilSlice("Int2VectorArrayToInt8SliceSlice", Int2VectorArrayToInt8SliceSlice)
	case 1:
		vpNilSlice("Int2VectorArrayToIntSliceSlice", Int2VectorArrayToIntSliceSlice)
	case 2:
		vpNilSlice("Int2VectorArrayToUint16SliceSlice", Int2VectorArrayToUint16SliceSlice)
	case 3:
		vpNilSlice("Int2VectorArrayToUint32SliceSlice", Int2VectorArrayToUint32SliceSlice)
	case 4:
		vpNilSlice("Int2VectorArrayToUint64SliceSlice", Int2VectorArrayToUint64SliceSlice)
	case 5:
		vpNilSlice("Int2VectorArrayToUint8SliceSlice", Int2VectorArrayToUint8SliceSlice)
	case 6:
		vpNilSlice("Int2VectorArrayToUintSliceSlice", Int2VectorArrayToUintSliceSlice)
	case 7:
		vpNilSlice("Int2VectorToFloat32Slice", Int2VectorToFloat32Slice)
	case 8:
		vpNilSlice("Int2VectorToFloat64Slice", Int2VectorToFloat64Slice)
	case 9:
		vpNilSlice("Int2VectorToInt16Slice", Int2VectorToInt16Slice)
	case 10:
		vpNilSlice("Int2VectorToInt32Slice", Int2VectorToInt32Slice)
	case 11:
		vpNilSlice("Int2VectorToInt64Slice", Int2VectorToInt64Slice)
	case 12:
		vpNilSlice("Int2VectorToInt8Slice", Int2VectorToInt8Slice)
	case 13:
		vpNilSlice("Int2VectorToIntSlice", Int2VectorToIntSlice)
	case 14:
		vpNilSlice("Int2VectorToUint16Slice", Int2VectorToUint16Slice)
	case 15:
		vpNilSlice("Int2VectorToUint32Slice", Int2VectorToUint32Slice)
	case 16:
		vpNilSlice("Int2VectorToUint64Slice", Int2VectorToUint64Slice)
	case 17:
		vpNilSlice("Int2VectorToUint8Slice", Int2VectorToUint8Slice)
	case 18:
		vpNilSlice("Int2VectorToUintSlice", Int2VectorToUintSlice)
	case 19:
		vpNilSlice("Int4ArrayToFloat32Slice", Int4ArrayToFloat32Slice)
	case 20:
		vpNilSlice("Int4ArrayToFloat64Slice", Int4ArrayToFloat64Slice)
	case 21:
		vpNilSlice("Int4ArrayToInt16Slice", Int4ArrayToInt16Slice)
	case 22:
		vpNilSlice("Int4ArrayToInt32Slice", Int4ArrayToInt32Slice)
	default:
		vpNilSlice("Int4ArrayToInt64Slice", Int4ArrayToInt64Slice)
	}
}

func VP_P15_Nil4() {
	vpReach("null")
	switch vpChoose(24) {
	case 0:
		vpNilSlice("Int4ArrayToInt8Slice", Int4ArrayToInt8Slice)
	case 1:
		vpNilSlice("Int4ArrayToIntSlice", Int4ArrayToIntSlice)
	case 2:
		vpNilSlice("Int4ArrayToUint16Slice", Int4ArrayToUint16Slice)
	case 3:
		vpNilSlice("Int4ArrayToUint32Slice", Int4ArrayToUint32Slice)
	case 4:
		vpNilSlice("Int4ArrayToUint64Slice", Int4ArrayToUint64Slice)
	case 5:
		vpNilSlice("Int4ArrayToUint8Slice", Int4ArrayToUint8Slice)
	case 6:
		vpNilSlice("Int4ArrayToUintSlice", Int4ArrayToUintSlice)
	case 7:
		vpNilSlice("Int4RangeArrayToFloat32Array2Slice", Int4RangeArrayToFloat32Array2Slice)
	case 8:
		vpNilSlice("Int4RangeArrayToFloat64Array2Slice", Int4RangeArrayToFloat64Array2Slice)
	case 9:
		vpNilSlice("Int4RangeArrayToInt16Array2Slice", Int4RangeArrayToInt16Array2Slice)
	case 10:
		vpNilSlice("Int4RangeArrayToInt32Array2Slice", Int4RangeArrayToInt32Array2Slice)
	case 11:
		vpNilSlice("Int4RangeArrayToInt64Array2Slice", Int4RangeArrayToInt64Array2Slice)
	case 12:
		vpNilSlice("Int4RangeArrayToInt8Array2Slice", Int4RangeArrayToInt8Array2Slice)
	case 13:
		vpNilSlice("Int4RangeArrayToIntArray2Slice", Int4RangeArrayToIntArray2Slice)
	case 14:
		vpNilSlice("Int4RangeArrayToUint16Array2Slice", Int4RangeArrayToUint16Array2Slice)
	case 15:
		vpNilSlice("Int4RangeArrayToUint32Array2Slice", Int4RangeArrayToUint32Array2Slice)
	case 16:
		vpNilSlice("Int4RangeArrayToUint64Array2Slice", Int4RangeArrayToUint64Array2Slice)
	case 17:
		vpNilSlice("Int4RangeArrayToUint8Array2Slice", Int4RangeArrayToUint8Array2Slice)
	case 18:
		vpNilSlice("Int4RangeArrayToUintArray2Slice", Int4RangeArrayToUintArray2Slice)
	case 19:
		vpNilSlice("Int8ArrayToFloat32Slice", Int8ArrayToFloat32Slice)
	case 20:
		vpNilSlice("Int8ArrayToFloat64Slice", Int8ArrayToFloat64Slice)
	case 21:
		vpNilSlice("Int8ArrayToInt16Slice", Int8ArrayToInt16Slice)
	case 22:
		vpNilSlice("Int8ArrayToInt32Slice", Int8ArrayToInt32Slice)
	default:
		vpNilSlice("Int8ArrayToInt64Slice", Int8ArrayToInt64Slice)
	}
}

func VP_P15_Nil5() {
	vpReach("null")
	switch vpChoose(24) {
	case 0:
		vpNilSlice("Int8ArrayToInt8Slice", Int8ArrayToInt8Slice)
	case 1:
		vpNilSlice("Int8ArrayToIntSlice", Int8ArrayToIntSlice)
	case 2:
		vpNilSlice("Int8ArrayToUint16Slice", Int8ArrayToUint16Slice)
	case 3:
		vpNilSlice("Int8ArrayToUint32Slice", Int8ArrayToUint32Slice)
	case 4:
		vpNilSlice("Int8ArrayToUint64Slice", Int8ArrayToUint64Slice)
	case 5:
		vpNilSlice("Int8ArrayToUint8Slice", Int8ArrayToUint8Slice)
	case 6:
		vpNilSlice("Int8ArrayToUintSlice", Int8ArrayToUintSlice)
	case 7:
		vpNilSlice("Int8RangeArrayToFloat32Array2Slice", Int8RangeArrayToFloat32Array2Slice)
	case 8:
		vpNilSlice("Int8RangeArrayToFloat64Array2Slice", Int8RangeArrayToFloat64Array2Slice)
	case 9:
		vpNilSlice("Int8RangeArrayToInt16Array2Slice", Int8RangeArrayToInt16Array2Slice)
	case 10:
		vpNilSlice("Int8RangeArrayToInt32Array2Slice", Int8RangeArrayToInt32Array2Slice)
	case 11:
		vpNilSlice("Int8RangeArrayToInt64Array2Slice", Int8RangeArrayToInt64Array2Slice)
	case 12:
		vpNilSlice("Int8RangeArrayToInt8Array2Slice", Int8RangeArrayToInt8Array2Slice)
	case 13:
		vpNilSlice("Int8RangeArrayToIntArray2Slice", Int8RangeArrayToIntArray2Slice)
	case 14:
		vpNilSlice("Int8RangeArrayToUint16Array2Slice", Int8RangeArrayToUint16Array2Slice)
	case 15:
		vpNilSlice("Int8RangeArrayToUint32Array2Slice", Int8RangeArrayToUint32Array2Slice)
	case 16:
		vpNilSlice("Int8RangeArrayToUint64Array2Slice", Int8RangeArrayToUint64Array2Slice)
	case 17:
		vpNilSlice("Int8RangeArrayToUint8Array2Slice", Int8RangeArrayToUint8Array2Slice)
	case 18:
		vpNilSlice("Int8RangeArrayToUintArray2Slice", Int8RangeArrayToUintArray2Slice)
	case 19:
		vpNilSlice("JSONArrayToByteSliceSlice", JSONArrayToByteSliceSlice)
	case 20:
		vpNilSlice("LineArrayToFloat64Array3Slice", LineArrayToFloat64Array3Slice)
	case 21:
		vpNilSlice("LsegArrayToFloat64Array2Array2Slice", LsegArrayToFloat64Array2Array2Slice)
	case 22:
		vpNilSlice("MACAddr8ArrayToHardwareAddrSlice", MACAddr8ArrayToHardwareAddrSlice)
	default:
		vpNilSlice("MACAddr8ToHardwareAddr", MACAddr8ToHardwareAddr)
	}
}

func VP_P15_Nil6() {
	vpReach("null")
	switch vpChoose(24) {
	case 0:
		vpNilSlice("MACAddrArrayToHardwareAddrSlice", MACAddrArrayToHardwareAddrSlice)
	case 1:
		vpNilSlice("MACAddrToHardwareAddr", MACAddrToHardwareAddr)
	case 2:
		vpNilSlice("MoneyArrayToInt64Slice", MoneyArrayToInt64Slice)
	case 3:
		vpNilSlice("NumRangeArrayToFloat32Array2Slice", NumRangeArrayToFloat32Array2Slice)
	case 4:
		vpNilSlice("NumRangeArrayToFloat64Array2Slice", NumRangeArrayToFloat64Array2Slice)
	case 5:
		vpNilSlice("NumRangeArrayToInt16Array2Slice", NumRangeArrayToInt16Array2Slice)
	case 6:
		vpNilSlice("NumRangeArrayToInt32Array2Slice", NumRangeArrayToInt32Array2Slice)
	case 7:
		vpNilSlice("NumRangeArrayToInt64Array2Slice", NumRangeArrayToInt64Array2Slice)
	case 8:
		vpNilSlice("NumRangeArrayToInt8Array2Slice", NumRangeArrayToInt8Array2Slice)
	case 9:
		vpNilSlice("NumRangeArrayToIntArray2Slice", NumRangeArrayToIntArray2Slice)
	case 10:
		vpNilSlice("NumRangeArrayToUint16Array2Slice", NumRangeArrayToUint16Array2Slice)
	case 11:
		vpNilSlice("NumRangeArrayToUint32Array2Slice", NumRangeArrayToUint32Array2Slice)
	case 12:
		vpNilSlice("NumRangeArrayToUint64Array2Slice", NumRangeArrayToUint64Array2Slice)
	case 13:
		vpNilSlice("NumRangeArrayToUint8Array2Slice", NumRangeArrayToUint8Array2Slice)
	case 14:
		vpNilSlice("NumRangeArrayToUintArray2Slice", NumRangeArrayToUintArray2Slice)
	case 15:
		vpNilSlice("NumericArrayToFloat32Slice", NumericArrayToFloat32Slice)
	case 16:
		vpNilSlice("NumericArrayToFloat64Slice", NumericArrayToFloat64Slice)
	case 17:
		vpNilSlice("NumericArrayToInt16Slice", NumericArrayToInt16Slice)
	case 18:
		vpNilSlice("NumericArrayToInt32Slice", NumericArrayToInt32Slice)
	case 19:
		vpNilSlice("NumericArrayToInt64Slice", NumericArrayToInt64Slice)
	case 20:
		vpNilSlice("NumericArrayToInt8Slice", NumericArrayToInt8Slice)
	case 21:
		vpNilSlice("NumericArrayToIntSlice", NumericArrayToIntSlice)
	case 22:
		vpNilSlice("NumericArrayToUint16Slice", NumericArrayToUint16Slice)
	default:
		vpNilSlice("NumericArrayToUint32Slice", NumericArrayToUint32Slice)
	}
}

func VP_P15_Nil7() {
	vpReach("null")
	switch vpChoose(24) {
	case 0:
		vpNilSlice("NumericArrayToUint64Slice", NumericArrayToUint64Slice)
	case 1:
		vpNilSlice("NumericArrayToUint8Slice", NumericArrayToUint8Slice)
	case 2:
		vpNilSlice("NumericArrayToUintSlice", NumericArrayToUintSlice)
	case 3:
		vpNilSlice("PathArrayToFloat64Array2SliceSlice", PathArrayToFloat64Array2SliceSlice)
	case 4:
		vpNilSlice("PathToFloat64Array2Slice", PathToFloat64Array2Slice)
	case 5:
		vpNilSlice("PointArrayToFloat64Array2Slice", PointArrayToFloat64Array2Slice)
	case 6:
		vpNilSlice("PolygonArrayToFloat64Array2SliceSlice", PolygonArrayToFloat64Array2SliceSlice)
	case 7:
		vpNilSlice("PolygonToFloat64Array2Slice", PolygonToFloat64Array2Slice)
	case 8:
		vpNilSlice("TSQueryArrayToByteSliceSlice", TSQueryArrayToByteSliceSlice)
	case 9:
		vpNilSlice("TSQueryArrayToStringSlice", TSQueryArrayToStringSlice)
	case 10:
		vpNilSlice("TSVectorArrayToByteSliceSliceSlice", TSVectorArrayToByteSliceSliceSlice)
	case 11:
		vpNilSlice("TSVectorArrayToStringSliceSlice", TSVectorArrayToStringSliceSlice)
	case 12:
		vpNilSlice("TSVectorToByteSliceSlice", TSVectorToByteSliceSlice)
	case 13:
		vpNilSlice("TSVectorToStringSlice", TSVectorToStringSlice)
	case 14:
		vpNilSlice("TextArrayToByteSliceSlice", TextArrayToByteSliceSlice)
	case 15:
		vpNilSlice("TextArrayToStringSlice", TextArrayToStringSlice)
	case 16:
		vpNilSlice("TimeArrayToTimeSlice", TimeArrayToTimeSlice)
	case 17:
		vpNilSlice("TimeToByteSlice", TimeToByteSlice)
	case 18:
		vpNilSlice("TimestampArrayToTimeSlice", TimestampArrayToTimeSlice)
	case 19:
		vpNilSlice("TimestamptzArrayToTimeSlice", TimestamptzArrayToTimeSlice)
	case 20:
		vpNilSlice("TimetzArrayToTimeSlice", TimetzArrayToTimeSlice)
	case 21:
		vpNilSlice("TimetzToByteSlice", TimetzToByteSlice)
	case 22:
		vpNilSlice("TsRangeArrayToTimeArray2Slice", TsRangeArrayToTimeArray2Slice)
	default:
		vpNilSlice("TstzRangeArrayToTimeArray2Slice", TstzRangeArrayToTimeArray2Slice)
	}
}

func VP_P15_Nil8() {
	vpReach("null")
	switch vpChoose(12) {
	case 0:
		vpNilSlice("UUIDArrayToByteArray16Slice", UUIDArrayToByteArray16Slice)
	case 1:
		vpNilSlice("UUIDArrayToByteSliceSlice", UUIDArrayToByteSliceSlice)
	case 2:
		vpNilSlice("UUIDArrayToStringSlice", UUIDArrayToStringSlice)
	case 3:
		vpNilSlice("VarBitArrayToBoolSliceSlice", VarBitArrayToBoolSliceSlice)
	case 4:
		vpNilSlice("VarBitArrayToInt64Slice", VarBitArrayToInt64Slice)
	case 5:
		vpNilSlice("VarBitArrayToStringSlice", VarBitArrayToStringSlice)
	case 6:
		vpNilSlice("VarBitArrayToUint8SliceSlice", VarBitArrayToUint8SliceSlice)
	case 7:
		vpNilSlice("VarBitToBoolSlice", VarBitToBoolSlice)
	case 8:
		vpNilSlice("VarBitToUint8Slice", VarBitToUint8Slice)
	case 9:
		vpNilSlice("VarCharArrayToByteSliceSlice", VarCharArrayToByteSliceSlice)
	case 10:
		vpNilSlice("VarCharArrayToStringSlice", VarCharArrayToStringSlice)
	default:
		vpNilSlice("XMLArrayToByteSliceSlice", XMLArrayToByteSliceSlice)
	}
}

