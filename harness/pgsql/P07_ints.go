package pgsql


func VP_P07_Int2From_int() { vpIntArrFrom("{", ",", "}", Int2ArrayFromIntSlice) }

func VP_P07_Int2To_int() { vpIntArrTo(2, "{", ",", "}", Int2ArrayToIntSlice) }

func VP_P07_Int2From_int8() { vpIntArrFrom("{", ",", "}", Int2ArrayFromInt8Slice) }

func VP_P07_Int2To_int8() { vpIntArrTo(2, "{", ",", "}", Int2ArrayToInt8Slice) }

func VP_P07_Int2From_int16() { vpIntArrFrom("{", ",", "}", Int2ArrayFromInt16Slice) }

func VP_P07_Int2To_int16() { vpIntArrTo(2, "{", ",", "}", Int2ArrayToInt16Slice) }

func VP_P07_Int2From_int32() { vpIntArrFrom("{", ",", "}", Int2ArrayFromInt32Slice) }

func VP_P07_Int2To_int32() { vpIntArrTo(2, "{", ",", "}", Int2ArrayToInt32Slice) }

func VP_P07_Int2From_int64() { vpIntArrFrom("{", ",", "}", Int2ArrayFromInt64Slice) }

func VP_P07_Int2To_int64() { vpIntArrTo(2, "{", ",", "}", Int2ArrayToInt64Slice) }

func VP_P07_Int2From_uint() { vpIntArrFrom("{", ",", "}", Int2ArrayFromUintSlice) }

func VP_P07_Int2To_uint() { vpIntArrTo(2, "{", ",", "}", Int2ArrayToUintSlice) }

func VP_P07_Int2From_uint8() { vpIntArrFrom("{", ",", "}", Int2ArrayFromUint8Slice) }

func VP_P07_Int2To_uint8() { vpIntArrTo(2, "{", ",", "}", Int2ArrayToUint8Slice) }

func VP_P07_Int2From_uint16() { vpIntArrFrom("{", ",", "}", Int2ArrayFromUint16Slice) }

func VP_P07_Int2To_uint16() { vpIntArrTo(2, "{", ",", "}", Int2ArrayToUint16Slice) }

func VP_P07_Int2From_uint32() { vpIntArrFrom("{", ",", "}", Int2ArrayFromUint32Slice) }

func VP_P07_Int2To_uint32() { vpIntArrTo(2, "{", ",", "}", Int2ArrayToUint32Slice) }

func VP_P07_Int2From_uint64() { vpIntArrFrom("{", ",", "}", Int2ArrayFromUint64Slice) }

func VP_P07_Int2To_uint64() { vpIntArrTo(2, "{", ",", "}", Int2ArrayToUint64Slice) }

func VP_P07_Int4From_int() { vpIntArrFrom("{", ",", "}", Int4ArrayFromIntSlice) }

func VP_P07_Int4To_int() { vpIntArrTo(4, "{", ",", "}", Int4ArrayToIntSlice) }

func VP_P07_Int4From_int8() { vpIntArrFrom("{", ",", "}", Int4ArrayFromInt8Slice) }

func VP_P07_Int4To_int8() { vpIntArrTo(4, "{", ",", "}", Int4ArrayToInt8Slice) }

func VP_P07_Int4From_int16() { vpIntArrFrom("{", ",", "}", Int4ArrayFromInt16Slice) }

func VP_P07_Int4To_int16() { vpIntArrTo(4, "{", ",", "}", Int4ArrayToInt16Slice) }

func VP_P07_Int4From_int32() { vpIntArrFrom("{", ",", "}", Int4ArrayFromInt32Slice) }

func VP_P07_Int4To_int32() { vpIntArrTo(4, "{", ",", "}", Int4ArrayToInt32Slice) }

func VP_P07_Int4From_int64() { vpIntArrFrom("{", ",", "}", Int4ArrayFromInt64Slice) }

func VP_P07_Int4To_int64() { vpIntArrTo(4, "{", ",", "}", Int4ArrayToInt64Slice) }

func VP_P07_Int4From_uint() { vpIntArrFrom("{", ",", "}", Int4ArrayFromUintSlice) }

func VP_P07_Int4To_uint() { vpIntArrTo(4, "{", ",", "}", Int4ArrayToUintSlice) }

func VP_P07_Int4From_uint8() { vpIntArrFrom("{", ",", "}", Int4ArrayFromUint8Slice) }

func VP_P07_Int4To_uint8() { vpIntArrTo(4, "{", ",", "}", Int4ArrayToUint8Slice) }

func VP_P07_Int4From_uint16() { vpIntArrFrom("{", ",", "}", Int4ArrayFromUint16Slice) }

func VP_P07_Int4To_uint16() { vpIntArrTo(4, "{", ",", "}", Int4ArrayToUint16Slice) }

func VP_P07_Int4From_uint32() { vpIntArrFrom("{", ",", "}", Int4ArrayFromUint32Slice) }

func VP_P07_Int4To_uint32() { vpIntArrTo(4, "{", ",", "}", Int4ArrayToUint32Slice) }

func VP_P07_Int4From_uint64() { vpIntArrFrom("{", ",", "}", Int4ArrayFromUint64Slice) }

func VP_P07_Int4To_uint64() { vpIntArrTo(4, "{", ",", "}", Int4ArrayToUint64Slice) }

func VP_P07_Int8From_int() { vpIntArrFrom("{", ",", "}", Int8ArrayFromIntSlice) }

func VP_P07_Int8To_int() { vpIntArrTo(8, "{", ",", "}", Int8ArrayToIntSlice) }

func VP_P07_Int8From_int8() { vpIntArrFrom("{", ",", "}", Int8ArrayFromInt8Slice) }

func VP_P07_Int8To_int8() { vpIntArrTo(8, "{", ",", "}", Int8ArrayToInt8Slice) }

func VP_P07_Int8From_int16() { vpIntArrFrom("{", ",", "}", Int8ArrayFromInt16Slice) }

func VP_P07_Int8To_int16() { vpIntArrTo(8, "{", ",", "}", Int8ArrayToInt16Slice) }

func VP_P07_Int8From_int32() { vpIntArrFrom("{", ",", "}", Int8ArrayFromInt32Slice) }

func VP_P07_Int8To_int32() { vpIntArrTo(8, "{", ",", "}", Int8ArrayToInt32Slice) }

func VP_P07_Int8From_int64() { vpIntArrFrom("{", ",", "}", Int8ArrayFromInt64Slice) }

func VP_P07_Int8To_int64() { vpIntArrTo(8, "{", ",", "}", Int8ArrayToInt64Slice) }

func VP_P07_Int8From_uint() { vpIntArrFrom("{", ",", "}", Int8ArrayFromUintSlice) }

func VP_P07_Int8To_uint() { vpIntArrTo(8, "{", ",", "}", Int8ArrayToUintSlice) }

func VP_P07_Int8From_uint8() { vpIntArrFrom("{", ",", "}", Int8ArrayFromUint8Slice) }

func VP_P07_Int8To_uint8() { vpIntArrTo(8, "{", ",", "}", Int8ArrayToUint8Slice) }

func VP_P07_Int8From_uint16() { vpIntArrFrom("{", ",", "}", Int8ArrayFromUint16Slice) }

func VP_P07_Int8To_uint16() { vpIntArrTo(8, "{", ",", "}", Int8ArrayToUint16Slice) }

func VP_P07_Int8From_uint32() { vpIntArrFrom("{", ",", "}", Int8ArrayFromUint32Slice) }

func VP_P07_Int8To_uint32() { vpIntArrTo(8, "{", ",", "}", Int8ArrayToUint32Slice) }

func VP_P07_Int8From_uint64() { vpIntArrFrom("{", ",", "}", Int8ArrayFromUint64Slice) }

func VP_P07_Int8To_uint64() { vpIntArrTo(8, "{", ",", "}", Int8ArrayToUint64Slice) }

func VP_P07_NumericFrom_int() { vpIntArrFrom("{", ",", "}", NumericArrayFromIntSlice) }

func VP_P07_NumericTo_int() { vpIntArrTo(0, "{", ",", "}", NumericArrayToIntSlice) }

func VP_P07_NumericFrom_int8() { vpIntArrFrom("{", ",", "}", NumericArrayFromInt8Slice) }

func VP_P07_NumericTo_int8() { vpIntArrTo(0, "{", ",", "}", NumericArrayToInt8Slice) }

func VP_P07_NumericFrom_int16() { vpIntArrFrom("{", ",", "}", NumericArrayFromInt16Slice) }

func VP_P07_NumericTo_int16() { vpIntArrTo(0, "{", ",", "}", NumericArrayToInt16Slice) }

func VP_P07_NumericFrom_int32() { vpIntArrFrom("{", ",", "}", NumericArrayFromInt32Slice) }

func VP_P07_NumericTo_int32() { vpIntArrTo(0, "{", ",", "}", NumericArrayToInt32Slice) }

func VP_P07_NumericFrom_int64() { vpIntArrFrom("{", ",", "}", NumericArrayFromInt64Slice) }

func VP_P07_NumericTo_int64() { vpIntArrTo(0, "{", ",", "}", NumericArrayToInt64Slice) }

func VP_P07_NumericFrom_uint() { vpIntArrFrom("{", ",", "}", NumericArrayFromUintSlice) }

func VP_P07_NumericTo_uint() { vpIntArrTo(0, "{", ",", "}", NumericArrayToUintSlice) }

func VP_P07_NumericFrom_uint8() { vpIntArrFrom("{", ",", "}", NumericArrayFromUint8Slice) }

func VP_P07_NumericTo_uint8() { vpIntArrTo(0, "{", ",", "}", NumericArrayToUint8Slice) }

func VP_P07_NumericFrom_uint16() { vpIntArrFrom("{", ",", "}", NumericArrayFromUint16Slice) }

func VP_P07_NumericTo_uint16() { vpIntArrTo(0, "{", ",", "}", NumericArrayToUint16Slice) }

func VP_P07_NumericFrom_uint32() { vpIntArrFrom("{", ",", "}", NumericArrayFromUint32Slice) }

func VP_P07_NumericTo_uint32() { vpIntArrTo(0, "{", ",", "}", NumericArrayToUint32Slice) }

func VP_P07_NumericFrom_uint64() { vpIntArrFrom("{", ",", "}", NumericArrayFromUint64Slice) }

func VP_P07_NumericTo_uint64() { vpIntArrTo(0, "{", ",", "}", NumericArrayToUint64Slice) }

func VP_P07_VectorFrom_int() { vpIntArrFrom("", " ", "", Int2VectorFromIntSlice) }

func VP_P07_VectorTo_int() { vpIntArrTo(2, "", " ", "", Int2VectorToIntSlice) }

func VP_P07_VectorArrayFrom_int() { vpVecArrFrom(Int2VectorArrayFromIntSliceSlice) }

func VP_P07_VectorArrayTo_int() { vpVecArrTo(Int2VectorArrayToIntSliceSlice) }

func VP_P07_VectorFrom_int8() { vpIntArrFrom("", " ", "", Int2VectorFromInt8Slice) }

func VP_P07_VectorTo_int8() { vpIntArrTo(2, "", " ", "", Int2VectorToInt8Slice) }

func VP_P07_VectorArrayFrom_int8() { vpVecArrFrom(Int2VectorArrayFromInt8SliceSlice) }

func VP_P07_VectorArrayTo_int8() { vpVecArrTo(Int2VectorArrayToInt8SliceSlice) }

func VP_P07_VectorFrom_int16() { vpIntArrFrom("", " ", "", Int2VectorFromInt16Slice) }

func VP_P07_VectorTo_int16() { vpIntArrTo(2, "", " ", "", Int2VectorToInt16Slice) }

func VP_P07_VectorArrayFrom_int16() { vpVecArrFrom(Int2VectorArrayFromInt16SliceSlice) }

func VP_P07_VectorArrayTo_int16() { vpVecArrTo(Int2VectorArrayToInt16SliceSlice) }

func VP_P07_VectorFrom_int32() { vpIntArrFrom("", " ", "", Int2VectorFromInt32Slice) }

func VP_P07_VectorTo_int32() { vpIntArrTo(2, "", " ", "", Int2VectorToInt32Slice) }

func VP_P07_VectorArrayFrom_int32() { vpVecArrFrom(Int2VectorArrayFromInt32SliceSlice) }

func VP_P07_VectorArrayTo_int32() { vpVecArrTo(Int2VectorArrayToInt32SliceSlice) }

func VP_P07_VectorFrom_int64() { vpIntArrFrom("", " ", "", Int2VectorFromInt64Slice) }

func VP_P07_VectorTo_int64() { vpIntArrTo(2, "", " ", "", Int2VectorToInt64Slice) }

func VP_P07_VectorArrayFrom_int64() { vpVecArrFrom(Int2VectorArrayFromInt64SliceSlice) }

func VP_P07_VectorArrayTo_int64() { vpVecArrTo(Int2VectorArrayToInt64SliceSlice) }

func VP_P07_VectorFrom_uint() { vpIntArrFrom("", " ", "", Int2VectorFromUintSlice) }

func VP_P07_VectorTo_uint() { vpIntArrTo(2, "", " ", "", Int2VectorToUintSlice) }

func VP_P07_VectorArrayFrom_uint() { vpVecArrFrom(Int2VectorArrayFromUintSliceSlice) }

func VP_P07_VectorArrayTo_uint() { vpVecArrTo(Int2VectorArrayToUintSliceSlice) }

func VP_P07_VectorFrom_uint8() { vpIntArrFrom("", " ", "", Int2VectorFromUint8Slice) }

func VP_P07_VectorTo_uint8() { vpIntArrTo(2, "", " ", "", Int2VectorToUint8Slice) }

func VP_P07_VectorArrayFrom_uint8() { vpVecArrFrom(Int2VectorArrayFromUint8SliceSlice) }

func VP_P07_VectorArrayTo_uint8() { vpVecArrTo(Int2VectorArrayToUint8SliceSlice) }

func VP_P07_VectorFrom_uint16() { vpIntArrFrom("", " ", "", Int2VectorFromUint16Slice) }

func VP_P07_VectorTo_uint16() { vpIntArrTo(2, "", " ", "", Int2VectorToUint16Slice) }

func VP_P07_VectorArrayFrom_uint16() { vpVecArrFrom(Int2VectorArrayFromUint16SliceSlice) }

func VP_P07_VectorArrayTo_uint16() { vpVecArrTo(Int2VectorArrayToUint16SliceSlice) }

func VP_P07_VectorFrom_uint32() { vpIntArrFrom("", " ", "", Int2VectorFromUint32Slice) }

func VP_P07_VectorTo_uint32() { vpIntArrTo(2, "", " ", "", Int2VectorToUint32Slice) }

func VP_P07_VectorArrayFrom_uint32() { vpVecArrFrom(Int2VectorArrayFromUint32SliceSlice) }

func VP_P07_VectorArrayTo_uint32() { vpVecArrTo(Int2VectorArrayToUint32SliceSlice) }

func VP_P07_VectorFrom_uint64() { vpIntArrFrom("", " ", "", Int2VectorFromUint64Slice) }

func VP_P07_VectorTo_uint64() { vpIntArrTo(2, "", " ", "", Int2VectorToUint64Slice) }

func VP_P07_VectorArrayFrom_uint64() { vpVecArrFrom(Int2VectorArrayFromUint64SliceSlice) }

func VP_P07_VectorArrayTo_uint64() { vpVecArrTo(Int2VectorArrayToUint64SliceSlice) }
