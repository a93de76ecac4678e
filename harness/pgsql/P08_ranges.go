package pgsql


func VP_P08_Int4From_int() { vpRngFrom(Int4RangeFromIntArray2) }

func VP_P08_Int4To_int() { vpRngTo(4, Int4RangeToIntArray2) }

func VP_P08_Int4ArrayFrom_int() { vpRngArrFrom(Int4RangeArrayFromIntArray2Slice) }

func VP_P08_Int4ArrayTo_int() { vpRngArrTo(4, Int4RangeArrayToIntArray2Slice) }

func VP_P08_Int4From_int8() { vpRngFrom(Int4RangeFromInt8Array2) }

func VP_P08_Int4To_int8() { vpRngTo(4, Int4RangeToInt8Array2) }

func VP_P08_Int4ArrayFrom_int8() { vpRngArrFrom(Int4RangeArrayFromInt8Array2Slice) }

func VP_P08_Int4ArrayTo_int8() { vpRngArrTo(4, Int4RangeArrayToInt8Array2Slice) }

func VP_P08_Int4From_int16() { vpRngFrom(Int4RangeFromInt16Array2) }

func VP_P08_Int4To_int16() { vpRngTo(4, Int4RangeToInt16Array2) }

func VP_P08_Int4ArrayFrom_int16() { vpRngArrFrom(Int4RangeArrayFromInt16Array2Slice) }

func VP_P08_Int4ArrayTo_int16() { vpRngArrTo(4, Int4RangeArrayToInt16Array2Slice) }

func VP_P08_Int4From_int32() { vpRngFrom(Int4RangeFromInt32Array2) }

func VP_P08_Int4To_int32() { vpRngTo(4, Int4RangeToInt32Array2) }

func VP_P08_Int4ArrayFrom_int32() { vpRngArrFrom(Int4RangeArrayFromInt32Array2Slice) }

func VP_P08_Int4ArrayTo_int32() { vpRngArrTo(4, Int4RangeArrayToInt32Array2Slice) }

func VP_P08_Int4From_int64() { vpRngFrom(Int4RangeFromInt64Array2) }

func VP_P08_Int4To_int64() { vpRngTo(4, Int4RangeToInt64Array2) }

func VP_P08_Int4ArrayFrom_int64() { vpRngArrFrom(Int4RangeArrayFromInt64Array2Slice) }

func VP_P08_Int4ArrayTo_int64() { vpRngArrTo(4, Int4RangeArrayToInt64Array2Slice) }

func VP_P08_Int4From_uint() { vpRngFrom(Int4RangeFromUintArray2) }

func VP_P08_Int4To_uint() { vpRngTo(4, Int4RangeToUintArray2) }

func VP_P08_Int4ArrayFrom_uint() { vpRngArrFrom(Int4RangeArrayFromUintArray2Slice) }

func VP_P08_Int4ArrayTo_uint() { vpRngArrTo(4, Int4RangeArrayToUintArray2Slice) }

func VP_P08_Int4From_uint8() { vpRngFrom(Int4RangeFromUint8Array2) }

func VP_P08_Int4To_uint8() { vpRngTo(4, Int4RangeToUint8Array2) }

func VP_P08_Int4ArrayFrom_uint8() { vpRngArrFrom(Int4RangeArrayFromUint8Array2Slice) }

func VP_P08_Int4ArrayTo_uint8() { vpRngArrTo(4, Int4RangeArrayToUint8Array2Slice) }

func VP_P08_Int4From_uint16() { vpRngFrom(Int4RangeFromUint16Array2) }

func VP_P08_Int4To_uint16() { vpRngTo(4, Int4RangeToUint16Array2) }

func VP_P08_Int4ArrayFrom_uint16() { vpRngArrFrom(Int4RangeArrayFromUint16Array2Slice) }

func VP_P08_Int4ArrayTo_uint16() { vpRngArrTo(4, Int4RangeArrayToUint16Array2Slice) }

func VP_P08_Int4From_uint32() { vpRngFrom(Int4RangeFromUint32Array2) }

func VP_P08_Int4To_uint32() { vpRngTo(4, Int4RangeToUint32Array2) }

func VP_P08_Int4ArrayFrom_uint32() { vpRngArrFrom(Int4RangeArrayFromUint32Array2Slice) }

func VP_P08_Int4ArrayTo_uint32() { vpRngArrTo(4, Int4RangeArrayToUint32Array2Slice) }

func VP_P08_Int4From_uint64() { vpRngFrom(Int4RangeFromUint64Array2) }

func VP_P08_Int4To_uint64() { vpRngTo(4, Int4RangeToUint64Array2) }

func VP_P08_Int4ArrayFrom_uint64() { vpRngArrFrom(Int4RangeArrayFromUint64Array2Slice) }

func VP_P08_Int4ArrayTo_uint64() { vpRngArrTo(4, Int4RangeArrayToUint64Array2Slice) }

func VP_P08_Int8From_int() { vpRngFrom(Int8RangeFromIntArray2) }

func VP_P08_Int8To_int() { vpRngTo(8, Int8RangeToIntArray2) }

func VP_P08_Int8ArrayFrom_int() { vpRngArrFrom(Int8RangeArrayFromIntArray2Slice) }

func VP_P08_Int8ArrayTo_int() { vpRngArrTo(8, Int8RangeArrayToIntArray2Slice) }

func VP_P08_Int8From_int8() { vpRngFrom(Int8RangeFromInt8Array2) }

func VP_P08_Int8To_int8() { vpRngTo(8, Int8RangeToInt8Array2) }

func VP_P08_Int8ArrayFrom_int8() { vpRngArrFrom(Int8RangeArrayFromInt8Array2Slice) }

func VP_P08_Int8ArrayTo_int8() { vpRngArrTo(8, Int8RangeArrayToInt8Array2Slice) }

func VP_P08_Int8From_int16() { vpRngFrom(Int8RangeFromInt16Array2) }

func VP_P08_Int8To_int16() { vpRngTo(8, Int8RangeToInt16Array2) }

func VP_P08_Int8ArrayFrom_int16() { vpRngArrFrom(Int8RangeArrayFromInt16Array2Slice) }

func VP_P08_Int8ArrayTo_int16() { vpRngArrTo(8, Int8RangeArrayToInt16Array2Slice) }

func VP_P08_Int8From_int32() { vpRngFrom(Int8RangeFromInt32Array2) }

func VP_P08_Int8To_int32() { vpRngTo(8, Int8RangeToInt32Array2) }

func VP_P08_Int8ArrayFrom_int32() { vpRngArrFrom(Int8RangeArrayFromInt32Array2Slice) }

func VP_P08_Int8ArrayTo_int32() { vpRngArrTo(8, Int8RangeArrayToInt32Array2Slice) }

func VP_P08_Int8From_int64() { vpRngFrom(Int8RangeFromInt64Array2) }

func VP_P08_Int8To_int64() { vpRngTo(8, Int8RangeToInt64Array2) }

func VP_P08_Int8ArrayFrom_int64() { vpRngArrFrom(Int8RangeArrayFromInt64Array2Slice) }

func VP_P08_Int8ArrayTo_int64() { vpRngArrTo(8, Int8RangeArrayToInt64Array2Slice) }

func VP_P08_Int8From_uint() { vpRngFrom(Int8RangeFromUintArray2) }

func VP_P08_Int8To_uint() { vpRngTo(8, Int8RangeToUintArray2) }

func VP_P08_Int8ArrayFrom_uint() { vpRngArrFrom(Int8RangeArrayFromUintArray2Slice) }

func VP_P08_Int8ArrayTo_uint() { vpRngArrTo(8, Int8RangeArrayToUintArray2Slice) }

func VP_P08_Int8From_uint8() { vpRngFrom(Int8RangeFromUint8Array2) }

func VP_P08_Int8To_uint8() { vpRngTo(8, Int8RangeToUint8Array2) }

func VP_P08_Int8ArrayFrom_uint8() { vpRngArrFrom(Int8RangeArrayFromUint8Array2Slice) }

func VP_P08_Int8ArrayTo_uint8() { vpRngArrTo(8, Int8RangeArrayToUint8Array2Slice) }

func VP_P08_Int8From_uint16() { vpRngFrom(Int8RangeFromUint16Array2) }

func VP_P08_Int8To_uint16() { vpRngTo(8, Int8RangeToUint16Array2) }

func VP_P08_Int8ArrayFrom_uint16() { vpRngArrFrom(Int8RangeArrayFromUint16Array2Slice) }

func VP_P08_Int8ArrayTo_uint16() { vpRngArrTo(8, Int8RangeArrayToUint16Array2Slice) }

func VP_P08_Int8From_uint32() { vpRngFrom(Int8RangeFromUint32Array2) }

func VP_P08_Int8To_uint32() { vpRngTo(8, Int8RangeToUint32Array2) }

func VP_P08_Int8ArrayFrom_uint32() { vpRngArrFrom(Int8RangeArrayFromUint32Array2Slice) }

func VP_P08_Int8ArrayTo_uint32() { vpRngArrTo(8, Int8RangeArrayToUint32Array2Slice) }

func VP_P08_Int8From_uint64() { vpRngFrom(Int8RangeFromUint64Array2) }

func VP_P08_Int8To_uint64() { vpRngTo(8, Int8RangeToUint64Array2) }

func VP_P08_Int8ArrayFrom_uint64() { vpRngArrFrom(Int8RangeArrayFromUint64Array2Slice) }

func VP_P08_Int8ArrayTo_uint64() { vpRngArrTo(8, Int8RangeArrayToUint64Array2Slice) }

func VP_P08_NumFrom_int() { vpRngFrom(NumRangeFromIntArray2) }

func VP_P08_NumTo_int() { vpRngTo(0, NumRangeToIntArray2) }

func VP_P08_NumArrayFrom_int() { vpRngArrFrom(NumRangeArrayFromIntArray2Slice) }

func VP_P08_NumArrayTo_int() { vpRngArrTo(0, NumRangeArrayToIntArray2Slice) }

func VP_P08_NumFrom_int8() { vpRngFrom(NumRangeFromInt8Array2) }

func VP_P08_NumTo_int8() { vpRngTo(0, NumRangeToInt8Array2) }

func VP_P08_NumArrayFrom_int8() { vpRngArrFrom(NumRangeArrayFromInt8Array2Slice) }

func VP_P08_NumArrayTo_int8() { vpRngArrTo(0, NumRangeArrayToInt8Array2Slice) }

func VP_P08_NumFrom_int16() { vpRngFrom(NumRangeFromInt16Array2) }

func VP_P08_NumTo_int16() { vpRngTo(0, NumRangeToInt16Array2) }

func VP_P08_NumArrayFrom_int16() { vpRngArrFrom(NumRangeArrayFromInt16Array2Slice) }

func VP_P08_NumArrayTo_int16() { vpRngArrTo(0, NumRangeArrayToInt16Array2Slice) }

func VP_P08_NumFrom_int32() { vpRngFrom(NumRangeFromInt32Array2) }

func VP_P08_NumTo_int32() { vpRngTo(0, NumRangeToInt32Array2) }

func VP_P08_NumArrayFrom_int32() { vpRngArrFrom(NumRangeArrayFromInt32Array2Slice) }

func VP_P08_NumArrayTo_int32() { vpRngArrTo(0, NumRangeArrayToInt32Array2Slice) }

func VP_P08_NumFrom_int64() { vpRngFrom(NumRangeFromInt64Array2) }

func VP_P08_NumTo_int64() { vpRngTo(0, NumRangeToInt64Array2) }

func VP_P08_NumArrayFrom_int64() { vpRngArrFrom(NumRangeArrayFromInt64Array2Slice) }

func VP_P08_NumArrayTo_int64() { vpRngArrTo(0, NumRangeArrayToInt64Array2Slice) }

func VP_P08_NumFrom_uint() { vpRngFrom(NumRangeFromUintArray2) }

func VP_P08_NumTo_uint() { vpRngTo(0, NumRangeToUintArray2) }

func VP_P08_NumArrayFrom_uint() { vpRngArrFrom(NumRangeArrayFromUintArray2Slice) }

func VP_P08_NumArrayTo_uint() { vpRngArrTo(0, NumRangeArrayToUintArray2Slice) }

func VP_P08_NumFrom_uint8() { vpRngFrom(NumRangeFromUint8Array2) }

func VP_P08_NumTo_uint8() { vpRngTo(0, NumRangeToUint8Array2) }

func VP_P08_NumArrayFrom_uint8() { vpRngArrFrom(NumRangeArrayFromUint8Array2Slice) }

func VP_P08_NumArrayTo_uint8() { vpRngArrTo(0, NumRangeArrayToUint8Array2Slice) }

func VP_P08_NumFrom_uint16() { vpRngFrom(NumRangeFromUint16Array2) }

func VP_P08_NumTo_uint16() { vpRngTo(0, NumRangeToUint16Array2) }

func VP_P08_NumArrayFrom_uint16() { vpRngArrFrom(NumRangeArrayFromUint16Array2Slice) }

func VP_P08_NumArrayTo_uint16() { vpRngArrTo(0, NumRangeArrayToUint16Array2Slice) }

func VP_P08_NumFrom_uint32() { vpRngFrom(NumRangeFromUint32Array2) }

func VP_P08_NumTo_uint32() { vpRngTo(0, NumRangeToUint32Array2) }

func VP_P08_NumArrayFrom_uint32() { vpRngArrFrom(NumRangeArrayFromUint32Array2Slice) }

func VP_P08_NumArrayTo_uint32() { vpRngArrTo(0, NumRangeArrayToUint32Array2Slice) }

func VP_P08_NumFrom_uint64() { vpRngFrom(NumRangeFromUint64Array2) }

func VP_P08_NumTo_uint64() { vpRngTo(0, NumRangeToUint64Array2) }

func VP_P08_NumArrayFrom_uint64() { vpRngArrFrom(NumRangeArrayFromUint64Array2Slice) }

func VP_P08_NumArrayTo_uint64() { vpRngArrTo(0, NumRangeArrayToUint64Array2Slice) }
