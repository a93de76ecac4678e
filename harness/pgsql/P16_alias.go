package pgsql

// Generated by tools/gen_p16.py.

func VP_P16_Scan1() {
	vpReach("run")
	switch vpChoose(40) {
	case 0:
		vpScanAny("AnyToEmptyInterface", AnyToEmptyInterface, `@#`)
	case 1:
		vpScanS("BitArrayToBoolSlice", BitArrayToBoolSlice, `{%,%}`)
	case 2:
		vpScanS("BitArrayToUint8Slice", BitArrayToUint8Slice, `{%,%}`)
	case 3:
		vpScanS("BitArrayToUintSlice", BitArrayToUintSlice, `{%,%}`)
	case 4:
		vpScanS("BoolArrayToBoolSlice", BoolArrayToBoolSlice, `{t,f}`)
	case 5:
		vpScanC("BoxToFloat64Array2Array2", BoxToFloat64Array2Array2, `(#,2),(1,#)`)
	case 6:
		vpScanS("BoxArrayToFloat64Array2Array2Slice", BoxArrayToFloat64Array2Array2Slice, `{(#,2),(1,#);(4,3),(2,1)}`)
	case 7:
		vpScanC("BPCharToByte", BPCharToByte, `@`)
	case 8:
		vpScanC("BPCharToRune", BPCharToRune, `@`)
	case 9:
		vpScanC("BPCharArrayToString", BPCharArrayToString, `{@,b}`, `{"\\",@}`)
	case 10:
		vpScanS("BPCharArrayToByteSlice", BPCharArrayToByteSlice, `{@,b}`, `{"\\",@}`)
	case 11:
		vpScanS("BPCharArrayToRuneSlice", BPCharArrayToRuneSlice, `{@,b}`, `{"\\",@}`)
	case 12:
		vpScanS("BPCharArrayToStringSlice", BPCharArrayToStringSlice, `{@,b}`, `{"\\",@}`)
	case 13:
		vpScanSS("ByteaArrayToByteSliceSlice", ByteaArrayToByteSliceSlice, `{"\\x0#","\\xa#"}`, `{"\\x"}`)
	case 14:
		vpScanS("ByteaArrayToStringSlice", ByteaArrayToStringSlice, `{"\\x0#","\\xa#"}`, `{"\\x"}`)
	case 15:
		vpScanC("CharToByte", CharToByte, `@`)
	case 16:
		vpScanC("CharToRune", CharToRune, `@`)
	case 17:
		vpScanC("CharArrayToString", CharArrayToString, `{@,b}`, `{"\\",@}`)
	case 18:
		vpScanS("CharArrayToByteSlice", CharArrayToByteSlice, `{@,b}`, `{"\\",@}`)
	case 19:
		vpScanS("CharArrayToRuneSlice", CharArrayToRuneSlice, `{@,b}`, `{"\\",@}`)
	case 20:
		vpScanS("CharArrayToStringSlice", CharArrayToStringSlice, `{@,b}`, `{"\\",@}`)
	case 21:
		vpScanNet("CIDRToIPNet", CIDRToIPNet, `10.#.0.0/16`)
	case 22:
		vpScanNets("CIDRArrayToIPNetSlice", CIDRArrayToIPNetSlice, `{10.#.0.0/16,1.2.3.0/24}`)
	case 23:
		vpScanC("DateToTime", DateToTime, `2001-02-03`)
	case 24:
		vpScanC("DateToString", DateToString, `2001-02-03`)
	case 25:
		vpScanS("DateToByteSlice", DateToByteSlice, `2001-02-03`)
	case 26:
		vpScanS("DateArrayToTimeSlice", DateArrayToTimeSlice, `{2001-02-03,1999-12-31}`)
	case 27:
		vpScanC("DateRangeToTimeArray2", DateRangeToTimeArray2, `[2001-02-03,2002-03-04)`)
	case 28:
		vpScanS("DateRangeArrayToTimeArray2Slice", DateRangeArrayToTimeArray2Slice, `{"[2001-02-03,2002-03-04)"}`)
	case 29:
		vpScanS("Float4ArrayToFloat32Slice", Float4ArrayToFloat32Slice, `{#,2}`)
	case 30:
		vpScanS("Float4ArrayToFloat64Slice", Float4ArrayToFloat64Slice, `{#,2}`)
	case 31:
		vpScanS("Float8ArrayToFloat32Slice", Float8ArrayToFloat32Slice, `{#,2}`)
	case 32:
		vpScanS("Float8ArrayToFloat64Slice", Float8ArrayToFloat64Slice, `{#,2}`)
	case 33:
		vpScanM("HStoreToStringMap", HStoreToStringMap, `"@"=>"#", "bb"=>NULL`)
	case 34:
		vpScanM("HStoreToStringPtrMap", HStoreToStringPtrMap, `"@"=>"#", "bb"=>NULL`)
	case 35:
		vpScanM("HStoreToNullStringMap", HStoreToNullStringMap, `"@"=>"#", "bb"=>NULL`)
	case 36:
		vpScanSM("HStoreArrayToStringMapSlice", HStoreArrayToStringMapSlice, `{"\"@\"=>\"#\"","\"b\"=>NULL"}`)
	case 37:
		vpScanSM("HStoreArrayToStringPtrMapSlice", HStoreArrayToStringPtrMapSlice, `{"\"@\"=>\"#\"","\"b\"=>NULL"}`)
	case 38:
		vpScanSM("HStoreArrayToNullStringMapSlice", HStoreArrayToNullStringMapSlice, `{"\"@\"=>\"#\"","\"b\"=>NULL"}`)
	default:
		vpScanNet("InetToIPNet", InetToIPNet, `10.#.0.1`, `10.#.0.1/8`)
	}
}

func VP_P16_Scan2() {
	vpReach("run")
	switch vpChoose(40) {
	case 0:
		vpScanS("InetToIP", InetToIP, `10.#.0.1`, `10.#.0.1/8`)
	case 1:
		vpScanNets("InetArrayToIPNetSlice", InetArrayToIPNetSlice, `{10.#.0.1,1.2.3.4/24}`)
	case 2:
		vpScanSS("InetArrayToIPSlice", InetArrayToIPSlice, `{10.#.0.1,1.2.3.4/24}`)
	case 3:
		vpScanS("Int2ArrayToIntSlice", Int2ArrayToIntSlice, `{1#,2}`)
	case 4:
		vpScanS("Int2ArrayToInt8Slice", Int2ArrayToInt8Slice, `{1#,2}`)
	case 5:
		vpScanS("Int2ArrayToInt16Slice", Int2ArrayToInt16Slice, `{1#,2}`)
	case 6:
		vpScanS("Int2ArrayToInt32Slice", Int2ArrayToInt32Slice, `{1#,2}`)
	case 7:
		vpScanS("Int2ArrayToInt64Slice", Int2ArrayToInt64Slice, `{1#,2}`)
	case 8:
		vpScanS("Int2ArrayToUintSlice", Int2ArrayToUintSlice, `{1#,2}`)
	case 9:
		vpScanS("Int2ArrayToUint8Slice", Int2ArrayToUint8Slice, `{1#,2}`)
	case 10:
		vpScanS("Int2ArrayToUint16Slice", Int2ArrayToUint16Slice, `{1#,2}`)
	case 11:
		vpScanS("Int2ArrayToUint32Slice", Int2ArrayToUint32Slice, `{1#,2}`)
	case 12:
		vpScanS("Int2ArrayToUint64Slice", Int2ArrayToUint64Slice, `{1#,2}`)
	case 13:
		vpScanS("Int2ArrayToFloat32Slice", Int2ArrayToFloat32Slice, `{1#,2}`)
	case 14:
		vpScanS("Int2ArrayToFloat64Slice", Int2ArrayToFloat64Slice, `{1#,2}`)
	case 15:
		vpScanS("Int2VectorToIntSlice", Int2VectorToIntSlice, `# 2`)
	case 16:
		vpScanS("Int2VectorToInt8Slice", Int2VectorToInt8Slice, `# 2`)
	case 17:
		vpScanS("Int2VectorToInt16Slice", Int2VectorToInt16Slice, `# 2`)
	case 18:
		vpScanS("Int2VectorToInt32Slice", Int2VectorToInt32Slice, `# 2`)
	case 19:
		vpScanS("Int2VectorToInt64Slice", Int2VectorToInt64Slice, `# 2`)
	case 20:
		vpScanS("Int2VectorToUintSlice", Int2VectorToUintSlice, `# 2`)
	case 21:
		vpScanS("Int2VectorToUint8Slice", Int2VectorToUint8Slice, `# 2`)
	case 22:
		vpScanS("Int2VectorToUint16Slice", Int2VectorToUint16Slice, `# 2`)
	case 23:
		vpScanS("Int2VectorToUint32Slice", Int2VectorToUint32Slice, `# 2`)
	case 24:
		vpScanS("Int2VectorToUint64Slice", Int2VectorToUint64Slice, `# 2`)
	case 25:
		vpScanS("Int2VectorToFloat32Slice", Int2VectorToFloat32Slice, `# 2`)
	case 26:
		vpScanS("Int2VectorToFloat64Slice", Int2VectorToFloat64Slice, `# 2`)
	case 27:
		vpScanSS("Int2VectorArrayToIntSliceSlice", Int2VectorArrayToIntSliceSlice, `{"# 2",3}`)
	case 28:
		vpScanSS("Int2VectorArrayToInt8SliceSlice", Int2VectorArrayToInt8SliceSlice, `{"# 2",3}`)
	case 29:
		vpScanSS("Int2VectorArrayToInt16SliceSlice", Int2VectorArrayToInt16SliceSlice, `{"# 2",3}`)
	case 30:
		vpScanSS("Int2VectorArrayToInt32SliceSlice", Int2VectorArrayToInt32SliceSlice, `{"# 2",3}`)
	case 31:
		vpScanSS("Int2VectorArrayToInt64SliceSlice", Int2VectorArrayToInt64SliceSlice, `{"# 2",3}`)
	case 32:
		vpScanSS("Int2VectorArrayToUintSliceSlice", Int2VectorArrayToUintSliceSlice, `{"# 2",3}`)
	case 33:
		vpScanSS("Int2VectorArrayToUint8SliceSlice", Int2VectorArrayToUint8SliceSlice, `{"# 2",3}`)
	case 34:
		vpScanSS("Int2VectorArrayToUint16SliceSlice", Int2VectorArrayToUint16SliceSlice, `{"# 2",3}`)
	case 35:
		vpScanSS("Int2VectorArrayToUint32SliceSlice", Int2VectorArrayToUint32SliceSlice, `{"# 2",3}`)
	case 36:
		vpScanSS("Int2VectorArrayToUint64SliceSlice", Int2VectorArrayToUint64SliceSlice, `{"# 2",3}`)
	case 37:
		vpScanSS("Int2VectorArrayToFloat32SliceSlice", Int2VectorArrayToFloat32SliceSlice, `{"# 2",3}`)
	case 38:
		vpScanSS("Int2VectorArrayToFloat64SliceSlice", Int2VectorArrayToFloat64SliceSlice, `{"# 2",3}`)
	default:
		vpScanS("Int4ArrayToIntSlice", Int4ArrayToIntSlice, `{#,2}`)
	}
}

func VP_P16_Scan3() {
	vpReach("run")
	switch vpChoose(40) {
	case 0:
		vpScanS("Int4ArrayToInt8Slice", Int4ArrayToInt8Slice, `{#,2}`)
	case 1:
		vpScanS("Int4ArrayToInt16Slice", Int4ArrayToInt16Slice, `{#,2}`)
	case 2:
		vpScanS("Int4ArrayToInt32Slice", Int4ArrayToInt32Slice, `{#,2}`)
	case 3:
		vpScanS("Int4ArrayToInt64Slice", Int4ArrayToInt64Slice, `{#,2}`)
	case 4:
		vpScanS("Int4ArrayToUintSlice", Int4ArrayToUintSlice, `{#,2}`)
	case 5:
		vpScanS("Int4ArrayToUint8Slice", Int4ArrayToUint8Slice, `{#,2}`)
	case 6:
		vpScanS("Int4ArrayToUint16Slice", Int4ArrayToUint16Slice, `{#,2}`)
	case 7:
		vpScanS("Int4ArrayToUint32Slice", Int4ArrayToUint32Slice, `{#,2}`)
	case 8:
		vpScanS("Int4ArrayToUint64Slice", Int4ArrayToUint64Slice, `{#,2}`)
	case 9:
		vpScanS("Int4ArrayToFloat32Slice", Int4ArrayToFloat32Slice, `{#,2}`)
	case 10:
		vpScanS("Int4ArrayToFloat64Slice", Int4ArrayToFloat64Slice, `{#,2}`)
	case 11:
		vpScanC("Int4RangeToIntArray2", Int4RangeToIntArray2, `[#,12)`)
	case 12:
		vpScanC("Int4RangeToInt8Array2", Int4RangeToInt8Array2, `[#,12)`)
	case 13:
		vpScanC("Int4RangeToInt16Array2", Int4RangeToInt16Array2, `[#,12)`)
	case 14:
		vpScanC("Int4RangeToInt32Array2", Int4RangeToInt32Array2, `[#,12)`)
	case 15:
		vpScanC("Int4RangeToInt64Array2", Int4RangeToInt64Array2, `[#,12)`)
	case 16:
		vpScanC("Int4RangeToUintArray2", Int4RangeToUintArray2, `[#,12)`)
	case 17:
		vpScanC("Int4RangeToUint8Array2", Int4RangeToUint8Array2, `[#,12)`)
	case 18:
		vpScanC("Int4RangeToUint16Array2", Int4RangeToUint16Array2, `[#,12)`)
	case 19:
		vpScanC("Int4RangeToUint32Array2", Int4RangeToUint32Array2, `[#,12)`)
	case 20:
		vpScanC("Int4RangeToUint64Array2", Int4RangeToUint64Array2, `[#,12)`)
	case 21:
		vpScanC("Int4RangeToFloat32Array2", Int4RangeToFloat32Array2, `[#,12)`)
	case 22:
		vpScanC("Int4RangeToFloat64Array2", Int4RangeToFloat64Array2, `[#,12)`)
	case 23:
		vpScanS("Int4RangeArrayToIntArray2Slice", Int4RangeArrayToIntArray2Slice, `{"[#,12)",empty}`)
	case 24:
		vpScanS("Int4RangeArrayToInt8Array2Slice", Int4RangeArrayToInt8Array2Slice, `{"[#,12)",empty}`)
	case 25:
		vpScanS("Int4RangeArrayToInt16Array2Slice", Int4RangeArrayToInt16Array2Slice, `{"[#,12)",empty}`)
	case 26:
		vpScanS("Int4RangeArrayToInt32Array2Slice", Int4RangeArrayToInt32Array2Slice, `{"[#,12)",empty}`)
	case 27:
		vpScanS("Int4RangeArrayToInt64Array2Slice", Int4RangeArrayToInt64Array2Slice, `{"[#,12)",empty}`)
	case 28:
		vpScanS("Int4RangeArrayToUintArray2Slice", Int4RangeArrayToUintArray2Slice, `{"[#,12)",empty}`)
	case 29:
		vpScanS("Int4RangeArrayToUint8Array2Slice", Int4RangeArrayToUint8Array2Slice, `{"[#,12)",empty}`)
	case 30:
		vpScanS("Int4RangeArrayToUint16Array2Slice", Int4RangeArrayToUint16Array2Slice, `{"[#,12)",empty}`)
	case 31:
		vpScanS("Int4RangeArrayToUint32Array2Slice", Int4RangeArrayToUint32Array2Slice, `{"[#,12)",empty}`)
	case 32:
		vpScanS("Int4RangeArrayToUint64Array2Slice", Int4RangeArrayToUint64Array2Slice, `{"[#,12)",empty}`)
	case 33:
		vpScanS("Int4RangeArrayToFloat32Array2Slice", Int4RangeArrayToFloat32Array2Slice, `{"[#,12)",empty}`)
	case 34:
		vpScanS("Int4RangeArrayToFloat64Array2Slice", Int4RangeArrayToFloat64Array2Slice, `{"[#,12)",empty}`)
	case 35:
		vpScanS("Int8ArrayToIntSlice", Int8ArrayToIntSlice, `{#,2}`)
	case 36:
		vpScanS("Int8ArrayToInt8Slice", Int8ArrayToInt8Slice, `{#,2}`)
	case 37:
		vpScanS("Int8ArrayToInt16Slice", Int8ArrayToInt16Slice, `{#,2}`)
	case 38:
		vpScanS("Int8ArrayToInt32Slice", Int8ArrayToInt32Slice, `{#,2}`)
	default:
		vpScanS("Int8ArrayToInt64Slice", Int8ArrayToInt64Slice, `{#,2}`)
	}
}

func VP_P16_Scan4() {
	vpReach("run")
	switch vpChoose(40) {
	case 0:
		vpScanS("Int8ArrayToUintSlice", Int8ArrayToUintSlice, `{#,2}`)
	case 1:
		vpScanS("Int8ArrayToUint8Slice", Int8ArrayToUint8Slice, `{#,2}`)
	case 2:
		vpScanS("Int8ArrayToUint16Slice", Int8ArrayToUint16Slice, `{#,2}`)
	case 3:
		vpScanS("Int8ArrayToUint32Slice", Int8ArrayToUint32Slice, `{#,2}`)
	case 4:
		vpScanS("Int8ArrayToUint64Slice", Int8ArrayToUint64Slice, `{#,2}`)
	case 5:
		vpScanS("Int8ArrayToFloat32Slice", Int8ArrayToFloat32Slice, `{#,2}`)
	case 6:
		vpScanS("Int8ArrayToFloat64Slice", Int8ArrayToFloat64Slice, `{#,2}`)
	case 7:
		vpScanC("Int8RangeToIntArray2", Int8RangeToIntArray2, `[#,12)`)
	case 8:
		vpScanC("Int8RangeToInt8Array2", Int8RangeToInt8Array2, `[#,12)`)
	case 9:
		vpScanC("Int8RangeToInt16Array2", Int8RangeToInt16Array2, `[#,12)`)
	case 10:
		vpScanC("Int8RangeToInt32Array2", Int8RangeToInt32Array2, `[#,12)`)
	case 11:
		vpScanC("Int8RangeToInt64Array2", Int8RangeToInt64Array2, `[#,12)`)
	case 12:
		vpScanC("Int8RangeToUintArray2", Int8RangeToUintArray2, `[#,12)`)
	case 13:
		vpScanC("Int8RangeToUint8Array2", Int8RangeToUint8Array2, `[#,12)`)
	case 14:
		vpScanC("Int8RangeToUint16Array2", Int8RangeToUint16Array2, `[#,12)`)
	case 15:
		vpScanC("Int8RangeToUint32Array2", Int8RangeToUint32Array2, `[#,12)`)
	case 16:
		vpScanC("Int8RangeToUint64Array2", Int8RangeToUint64Array2, `[#,12)`)
	case 17:
		vpScanC("Int8RangeToFloat32Array2", Int8RangeToFloat32Array2, `[#,12)`)
	case 18:
		vpScanC("Int8RangeToFloat64Array2", Int8RangeToFloat64Array2, `[#,12)`)
	case 19:
		vpScanS("Int8RangeArrayToIntArray2Slice", Int8RangeArrayToIntArray2Slice, `{"[#,12)"}`)
	case 20:
		vpScanS("Int8RangeArrayToInt8Array2Slice", Int8RangeArrayToInt8Array2Slice, `{"[#,12)"}`)
	case 21:
		vpScanS("Int8RangeArrayToInt16Array2Slice", Int8RangeArrayToInt16Array2Slice, `{"[#,12)"}`)
	case 22:
		vpScanS("Int8RangeArrayToInt32Array2Slice", Int8RangeArrayToInt32Array2Slice, `{"[#,12)"}`)
	case 23:
		vpScanS("Int8RangeArrayToInt64Array2Slice", Int8RangeArrayToInt64Array2Slice, `{"[#,12)"}`)
	case 24:
		vpScanS("Int8RangeArrayToUintArray2Slice", Int8RangeArrayToUintArray2Slice, `{"[#,12)"}`)
	case 25:
		vpScanS("Int8RangeArrayToUint8Array2Slice", Int8RangeArrayToUint8Array2Slice, `{"[#,12)"}`)
	case 26:
		vpScanS("Int8RangeArrayToUint16Array2Slice", Int8RangeArrayToUint16Array2Slice, `{"[#,12)"}`)
	case 27:
		vpScanS("Int8RangeArrayToUint32Array2Slice", Int8RangeArrayToUint32Array2Slice, `{"[#,12)"}`)
	case 28:
		vpScanS("Int8RangeArrayToUint64Array2Slice", Int8RangeArrayToUint64Array2Slice, `{"[#,12)"}`)
	case 29:
		vpScanS("Int8RangeArrayToFloat32Array2Slice", Int8RangeArrayToFloat32Array2Slice, `{"[#,12)"}`)
	case 30:
		vpScanS("Int8RangeArrayToFloat64Array2Slice", Int8RangeArrayToFloat64Array2Slice, `{"[#,12)"}`)
	case 31:
		vpScanSS("JSONArrayToByteSliceSlice", JSONArrayToByteSliceSlice, `{"{\"@\":#}",#}`)
	case 32:
		vpScanC("LineToFloat64Array3", LineToFloat64Array3, `{#,2,3}`)
	case 33:
		vpScanS("LineArrayToFloat64Array3Slice", LineArrayToFloat64Array3Slice, `{"{#,2,3}"}`)
	case 34:
		vpScanC("LsegToFloat64Array2Array2", LsegToFloat64Array2Array2, `[(#,2),(3,4)]`)
	case 35:
		vpScanS("LsegArrayToFloat64Array2Array2Slice", LsegArrayToFloat64Array2Array2Slice, `{"[(#,2),(3,4)]"}`)
	case 36:
		vpScanS("MACAddrToHardwareAddr", MACAddrToHardwareAddr, `01:02:03:04:05:0#`)
	case 37:
		vpScanS("MACAddr8ToHardwareAddr", MACAddr8ToHardwareAddr, `01:02:03:04:05:06:07:0#`)
	case 38:
		vpScanSS("MACAddr8ArrayToHardwareAddrSlice", MACAddr8ArrayToHardwareAddrSlice, `{01:02:03:04:05:06:07:0#}`)
	default:
		vpScanSS("MACAddrArrayToHardwareAddrSlice", MACAddrArrayToHardwareAddrSlice, `{01:02:03:04:05:0#}`)
	}
}

func VP_P16_Scan5() {
	vpReach("run")
	switch vpChoose(40) {
	case 0:
		vpScanC("MoneyToInt64", MoneyToInt64, `$#.50`)
	case 1:
		vpScanS("MoneyArrayToInt64Slice", MoneyArrayToInt64Slice, `{$#.50,"$1,23#.00"}`)
	case 2:
		vpScanS("NumericArrayToIntSlice", NumericArrayToIntSlice, `{#,2}`)
	case 3:
		vpScanS("NumericArrayToInt8Slice", NumericArrayToInt8Slice, `{#,2}`)
	case 4:
		vpScanS("NumericArrayToInt16Slice", NumericArrayToInt16Slice, `{#,2}`)
	case 5:
		vpScanS("NumericArrayToInt32Slice", NumericArrayToInt32Slice, `{#,2}`)
	case 6:
		vpScanS("NumericArrayToInt64Slice", NumericArrayToInt64Slice, `{#,2}`)
	case 7:
		vpScanS("NumericArrayToUintSlice", NumericArrayToUintSlice, `{#,2}`)
	case 8:
		vpScanS("NumericArrayToUint8Slice", NumericArrayToUint8Slice, `{#,2}`)
	case 9:
		vpScanS("NumericArrayToUint16Slice", NumericArrayToUint16Slice, `{#,2}`)
	case 10:
		vpScanS("NumericArrayToUint32Slice", NumericArrayToUint32Slice, `{#,2}`)
	case 11:
		vpScanS("NumericArrayToUint64Slice", NumericArrayToUint64Slice, `{#,2}`)
	case 12:
		vpScanS("NumericArrayToFloat32Slice", NumericArrayToFloat32Slice, `{#,2}`)
	case 13:
		vpScanS("NumericArrayToFloat64Slice", NumericArrayToFloat64Slice, `{#,2}`)
	case 14:
		vpScanC("NumRangeToIntArray2", NumRangeToIntArray2, `[#,12)`)
	case 15:
		vpScanC("NumRangeToInt8Array2", NumRangeToInt8Array2, `[#,12)`)
	case 16:
		vpScanC("NumRangeToInt16Array2", NumRangeToInt16Array2, `[#,12)`)
	case 17:
		vpScanC("NumRangeToInt32Array2", NumRangeToInt32Array2, `[#,12)`)
	case 18:
		vpScanC("NumRangeToInt64Array2", NumRangeToInt64Array2, `[#,12)`)
	case 19:
		vpScanC("NumRangeToUintArray2", NumRangeToUintArray2, `[#,12)`)
	case 20:
		vpScanC("NumRangeToUint8Array2", NumRangeToUint8Array2, `[#,12)`)
	case 21:
		vpScanC("NumRangeToUint16Array2", NumRangeToUint16Array2, `[#,12)`)
	case 22:
		vpScanC("NumRangeToUint32Array2", NumRangeToUint32Array2, `[#,12)`)
	case 23:
		vpScanC("NumRangeToUint64Array2", NumRangeToUint64Array2, `[#,12)`)
	case 24:
		vpScanC("NumRangeToFloat32Array2", NumRangeToFloat32Array2, `[#,12)`)
	case 25:
		vpScanC("NumRangeToFloat64Array2", NumRangeToFloat64Array2, `[#,12)`)
	case 26:
		vpScanS("NumRangeArrayToIntArray2Slice", NumRangeArrayToIntArray2Slice, `{"[#,12)"}`)
	case 27:
		vpScanS("NumRangeArrayToInt8Array2Slice", NumRangeArrayToInt8Array2Slice, `{"[#,12)"}`)
	case 28:
		vpScanS("NumRangeArrayToInt16Array2Slice", NumRangeArrayToInt16Array2Slice, `{"[#,12)"}`)
	case 29:
		vpScanS("NumRangeArrayToInt32Array2Slice", NumRangeArrayToInt32Array2Slice, `{"[#,12)"}`)
	case 30:
		vpScanS("NumRangeArrayToInt64Array2Slice", NumRangeArrayToInt64Array2Slice, `{"[#,12)"}`)
	case 31:
		vpScanS("NumRangeArrayToUintArray2Slice", NumRangeArrayToUintArray2Slice, `{"[#,12)"}`)
	case 32:
		vpScanS("NumRangeArrayToUint8Array2Slice", NumRangeArrayToUint8Array2Slice, `{"[#,12)"}`)
	case 33:
		vpScanS("NumRangeArrayToUint16Array2Slice", NumRangeArrayToUint16Array2Slice, `{"[#,12)"}`)
	case 34:
		vpScanS("NumRangeArrayToUint32Array2Slice", NumRangeArrayToUint32Array2Slice, `{"[#,12)"}`)
	case 35:
		vpScanS("NumRangeArrayToUint64Array2Slice", NumRangeArrayToUint64Array2Slice, `{"[#,12)"}`)
	case 36:
		vpScanS("NumRangeArrayToFloat32Array2Slice", NumRangeArrayToFloat32Array2Slice, `{"[#,12)"}`)
	case 37:
		vpScanS("NumRangeArrayToFloat64Array2Slice", NumRangeArrayToFloat64Array2Slice, `{"[#,12)"}`)
	case 38:
		vpScanS("PathToFloat64Array2Slice", PathToFloat64Array2Slice, `[(#,2),(3,4)]`)
	default:
		vpScanSS("PathArrayToFloat64Array2SliceSlice", PathArrayToFloat64Array2SliceSlice, `{"[(#,2),(3,4)]"}`)
	}
}

func VP_P16_Scan6() {
	vpReach("run")
	switch vpChoose(38) {
	case 0:
		vpScanC("PointToFloat64Array2", PointToFloat64Array2, `(#,2)`)
	case 1:
		vpScanS("PointArrayToFloat64Array2Slice", PointArrayToFloat64Array2Slice, `{"(#,2)"}`)
	case 2:
		vpScanS("PolygonToFloat64Array2Slice", PolygonToFloat64Array2Slice, `((#,2),(3,4))`)
	case 3:
		vpScanSS("PolygonArrayToFloat64Array2SliceSlice", PolygonArrayToFloat64Array2SliceSlice, `{"((#,2),(3,4))"}`)
	case 4:
		vpScanS("TextArrayToStringSlice", TextArrayToStringSlice, `{@,"b,\\@",""}`)
	case 5:
		vpScanSS("TextArrayToByteSliceSlice", TextArrayToByteSliceSlice, `{@,"b,\\@",""}`)
	case 6:
		vpScanC("TimeToString", TimeToString, `01:02:03`)
	case 7:
		vpScanS("TimeToByteSlice", TimeToByteSlice, `01:02:03`)
	case 8:
		vpScanS("TimeArrayToTimeSlice", TimeArrayToTimeSlice, `{01:02:03}`)
	case 9:
		vpScanS("TimestampArrayToTimeSlice", TimestampArrayToTimeSlice, `{"2001-02-03 04:05:06"}`)
	case 10:
		vpScanS("TimestamptzArrayToTimeSlice", TimestamptzArrayToTimeSlice, `{"2001-02-03 04:05:06+00"}`)
	case 11:
		vpScanC("TimetzToString", TimetzToString, `01:02:03+00:00`)
	case 12:
		vpScanS("TimetzToByteSlice", TimetzToByteSlice, `01:02:03+00:00`)
	case 13:
		vpScanS("TimetzArrayToTimeSlice", TimetzArrayToTimeSlice, `{01:02:03+00:00}`)
	case 14:
		vpScanS("TSQueryArrayToStringSlice", TSQueryArrayToStringSlice, `{'@',"'b' & '@'"}`)
	case 15:
		vpScanSS("TSQueryArrayToByteSliceSlice", TSQueryArrayToByteSliceSlice, `{'@',"'b' & '@'"}`)
	case 16:
		vpScanC("TsRangeToTimeArray2", TsRangeToTimeArray2, `["2001-02-03 04:05:06","2002-02-03 04:05:06")`)
	case 17:
		vpScanS("TsRangeArrayToTimeArray2Slice", TsRangeArrayToTimeArray2Slice, `{"[\"2001-02-03 04:05:06\",\"2002-02-03 04:05:06\")"}`)
	case 18:
		vpScanC("TstzRangeToTimeArray2", TstzRangeToTimeArray2, `["2001-02-03 04:05:06+00","2002-02-03 04:05:06+00")`)
	case 19:
		vpScanS("TstzRangeArrayToTimeArray2Slice", TstzRangeArrayToTimeArray2Slice, `{"[\"2001-02-03 04:05:06+00\",\"2002-02-03 04:05:06+00\")"}`)
	case 20:
		vpScanS("TSVectorToStringSlice", TSVectorToStringSlice, `'@' 'bc'`)
	case 21:
		vpScanSS("TSVectorToByteSliceSlice", TSVectorToByteSliceSlice, `'@' 'bc'`)
	case 22:
		vpScanSS("TSVectorArrayToStringSliceSlice", TSVectorArrayToStringSliceSlice, `{'@',"'b' '@'"}`)
	case 23:
		vpScanSSS("TSVectorArrayToByteSliceSliceSlice", TSVectorArrayToByteSliceSliceSlice, `{'@',"'b' '@'"}`)
	case 24:
		vpScanC("UUIDToByteArray16", UUIDToByteArray16, `#0000000-0000-0000-0000-0000000000a#`)
	case 25:
		vpScanS("UUIDArrayToByteArray16Slice", UUIDArrayToByteArray16Slice, `{#0000000-0000-0000-0000-0000000000a#}`)
	case 26:
		vpScanS("UUIDArrayToStringSlice", UUIDArrayToStringSlice, `{#0000000-0000-0000-0000-0000000000a#}`)
	case 27:
		vpScanSS("UUIDArrayToByteSliceSlice", UUIDArrayToByteSliceSlice, `{#0000000-0000-0000-0000-0000000000a#}`)
	case 28:
		vpScanC("VarBitToInt64", VarBitToInt64, `1%0`)
	case 29:
		vpScanS("VarBitToBoolSlice", VarBitToBoolSlice, `1%0`)
	case 30:
		vpScanS("VarBitToUint8Slice", VarBitToUint8Slice, `1%0`)
	case 31:
		vpScanSS("VarBitArrayToBoolSliceSlice", VarBitArrayToBoolSliceSlice, `{%1,1%0}`)
	case 32:
		vpScanSS("VarBitArrayToUint8SliceSlice", VarBitArrayToUint8SliceSlice, `{%1,1%0}`)
	case 33:
		vpScanS("VarBitArrayToStringSlice", VarBitArrayToStringSlice, `{%1,1%0}`)
	case 34:
		vpScanS("VarBitArrayToInt64Slice", VarBitArrayToInt64Slice, `{%1,1%0}`)
	case 35:
		vpScanS("VarCharArrayToStringSlice", VarCharArrayToStringSlice, `{@,"b,\\@"}`)
	case 36:
		vpScanSS("VarCharArrayToByteSliceSlice", VarCharArrayToByteSliceSlice, `{@,"b,\\@"}`)
	default:
		vpScanSS("XMLArrayToByteSliceSlice", XMLArrayToByteSliceSlice, `{<@/>,"<b c=\"@\"/>"}`)
	}
}

func VP_P16_Value1() {
	vpReach("run")
	switch vpChoose(60) {
	case 0:
		vpFromS("BitArrayFromBoolSlice", BitArrayFromBoolSlice)
	case 1:
		vpFromS("BitArrayFromUint8Slice", BitArrayFromUint8Slice)
	case 2:
		vpFromS("BitArrayFromUintSlice", BitArrayFromUintSlice)
	case 3:
		vpFromS("BoolArrayFromBoolSlice", BoolArrayFromBoolSlice)
	case 4:
		vpFromS("BoxArrayFromFloat64Array2Array2Slice", BoxArrayFromFloat64Array2Array2Slice)
	case 5:
		vpFromS("BPCharArrayFromByteSlice", BPCharArrayFromByteSlice)
	case 6:
		vpFromS("BPCharArrayFromRuneSlice", BPCharArrayFromRuneSlice)
	case 7:
		vpFromS("BPCharArrayFromStringSlice", BPCharArrayFromStringSlice)
	case 8:
		vpFromSS("ByteaArrayFromByteSliceSlice", ByteaArrayFromByteSliceSlice)
	case 9:
		vpFromS("ByteaArrayFromStringSlice", ByteaArrayFromStringSlice)
	case 10:
		vpFromS("CharArrayFromByteSlice", CharArrayFromByteSlice)
	case 11:
		vpFromS("CharArrayFromRuneSlice", CharArrayFromRuneSlice)
	case 12:
		vpFromS("CharArrayFromStringSlice", CharArrayFromStringSlice)
	case 13:
		vpFromNets("CIDRArrayFromIPNetSlice", CIDRArrayFromIPNetSlice)
	case 14:
		vpFromS("DateArrayFromTimeSlice", DateArrayFromTimeSlice)
	case 15:
		vpFromS("DateRangeArrayFromTimeArray2Slice", DateRangeArrayFromTimeArray2Slice)
	case 16:
		vpFromS("Float4ArrayFromFloat32Slice", Float4ArrayFromFloat32Slice)
	case 17:
		vpFromS("Float4ArrayFromFloat64Slice", Float4ArrayFromFloat64Slice)
	case 18:
		vpFromS("Float8ArrayFromFloat32Slice", Float8ArrayFromFloat32Slice)
	case 19:
		vpFromS("Float8ArrayFromFloat64Slice", Float8ArrayFromFloat64Slice)
	case 20:
		vpFromM("HStoreFromStringMap", HStoreFromStringMap)
	case 21:
		vpFromM("HStoreFromStringPtrMap", HStoreFromStringPtrMap)
	case 22:
		vpFromM("HStoreFromNullStringMap", HStoreFromNullStringMap)
	case 23:
		vpFromSM("HStoreArrayFromStringMapSlice", HStoreArrayFromStringMapSlice)
	case 24:
		vpFromSM("HStoreArrayFromStringPtrMapSlice", HStoreArrayFromStringPtrMapSlice)
	case 25:
		vpFromSM("HStoreArrayFromNullStringMapSlice", HStoreArrayFromNullStringMapSlice)
	case 26:
		vpFromS("InetFromIP", InetFromIP)
	case 27:
		vpFromNets("InetArrayFromIPNetSlice", InetArrayFromIPNetSlice)
	case 28:
		vpFromSS("InetArrayFromIPSlice", InetArrayFromIPSlice)
	case 29:
		vpFromS("Int2ArrayFromIntSlice", Int2ArrayFromIntSlice)
	case 30:
		vpFromS("Int2ArrayFromInt8Slice", Int2ArrayFromInt8Slice)
	case 31:
		vpFromS("Int2ArrayFromInt16Slice", Int2ArrayFromInt16Slice)
	case 32:
		vpFromS("Int2ArrayFromInt32Slice", Int2ArrayFromInt32Slice)
	case 33:
		vpFromS("Int2ArrayFromInt64Slice", Int2ArrayFromInt64Slice)
	case 34:
		vpFromS("Int2ArrayFromUintSlice", Int2ArrayFromUintSlice)
	case 35:
		vpFromS("Int2ArrayFromUint8Slice", Int2ArrayFromUint8Slice)
	case 36:
		vpFromS("Int2ArrayFromUint16Slice", Int2ArrayFromUint16Slice)
	case 37:
		vpFromS("Int2ArrayFromUint32Slice", Int2ArrayFromUint32Slice)
	case 38:
		vpFromS("Int2ArrayFromUint64Slice", Int2ArrayFromUint64Slice)
	case 39:
		vpFromS("Int2ArrayFromFloat32Slice", Int2ArrayFromFloat32Slice)
	case 40:
		vpFromS("Int2ArrayFromFloat64Slice", Int2ArrayFromFloat64Slice)
	case 41:
		vpFromS("Int2VectorFromIntSlice", Int2VectorFromIntSlice)
	case 42:
		vpFromS("Int2VectorFromInt8Slice", Int2VectorFromInt8Slice)
	case 43:
		vpFromS("Int2VectorFromInt16Slice", Int2VectorFromInt16Slice)
	case 44:
		vpFromS("Int2VectorFromInt32Slice", Int2VectorFromInt32Slice)
	case 45:
		vpFromS("Int2VectorFromInt64Slice", Int2VectorFromInt64Slice)
	case 46:
		vpFromS("Int2VectorFromUintSlice", Int2VectorFromUintSlice)
	case 47:
		vpFromS("Int2VectorFromUint8Slice", Int2VectorFromUint8Slice)
	case 48:
		vpFromS("Int2VectorFromUint16Slice", Int2VectorFromUint16Slice)
	case 49:
		vpFromS("Int2VectorFromUint32Slice", Int2VectorFromUint32Slice)
	case 50:
		vpFromS("Int2VectorFromUint64Slice", Int2VectorFromUint64Slice)
	case 51:
		vpFromS("Int2VectorFromFloat32Slice", Int2VectorFromFloat32Slice)
	case 52:
		vpFromS("Int2VectorFromFloat64Slice", Int2VectorFromFloat64Slice)
	case 53:
		vpFromSS("Int2VectorArrayFromIntSliceSlice", Int2VectorArrayFromIntSliceSlice)
	case 54:
		vpFromSS("Int2VectorArrayFromInt8SliceSlice", Int2VectorArrayFromInt8SliceSlice)
	case 55:
		vpFromSS("Int2VectorArrayFromInt16SliceSlice", Int2VectorArrayFromInt16SliceSlice)
	case 56:
		vpFromSS("Int2VectorArrayFromInt32SliceSlice", Int2VectorArrayFromInt32SliceSlice)
	case 57:
		vpFromSS("Int2VectorArrayFromInt64SliceSlice", Int2VectorArrayFromInt64SliceSlice)
	case 58:
		vpFromSS("Int2VectorArrayFromUintSliceSlice", Int2VectorArrayFromUintSliceSlice)
	default:
		vpFromSS("Int2VectorArrayFromUint8SliceSlice", Int2VectorArrayFromUint8SliceSlice)
	}
}

func VP_P16_Value2() {
	vpReach("run")
	switch vpChoose(60) {
	case 0:
		vpFromSS("Int2VectorArrayFromUint16SliceSlice", Int2VectorArrayFromUint16SliceSlice)
	case 1:
		vpFromSS("Int2VectorArrayFromUint32SliceSlice", Int2VectorArrayFromUint32SliceSlice)
	case 2:
		vpFromSS("Int2VectorArrayFromUint64SliceSlice", Int2VectorArrayFromUint64SliceSlice)
	case 3:
		vpFromSS("Int2VectorArrayFromFloat32SliceSlice", Int2VectorArrayFromFloat32SliceSlice)
	case 4:
		vpFromSS("Int2VectorArrayFromFloat64SliceSlice", Int2VectorArrayFromFloat64SliceSlice)
	case 5:
		vpFromS("Int4ArrayFromIntSlice", Int4ArrayFromIntSlice)
	case 6:
		vpFromS("Int4ArrayFromInt8Slice", Int4ArrayFromInt8Slice)
	case 7:
		vpFromS("Int4ArrayFromInt16Slice", Int4ArrayFromInt16Slice)
	case 8:
		vpFromS("Int4ArrayFromInt32Slice", Int4ArrayFromInt32Slice)
	case 9:
		vpFromS("Int4ArrayFromInt64Slice", Int4ArrayFromInt64Slice)
	case 10:
		vpFromS("Int4ArrayFromUintSlice", Int4ArrayFromUintSlice)
	case 11:
		vpFromS("Int4ArrayFromUint8Slice", Int4ArrayFromUint8Slice)
	case 12:
		vpFromS("Int4ArrayFromUint16Slice", Int4ArrayFromUint16Slice)
	case 13:
		vpFromS("Int4ArrayFromUint32Slice", Int4ArrayFromUint32Slice)
	case 14:
		vpFromS("Int4ArrayFromUint64Slice", Int4ArrayFromUint64Slice)
	case 15:
		vpFromS("Int4ArrayFromFloat32Slice", Int4ArrayFromFloat32Slice)
	case 16:
		vpFromS("Int4ArrayFromFloat64Slice", Int4ArrayFromFloat64Slice)
	case 17:
		vpFromS("Int4RangeArrayFromIntArray2Slice", Int4RangeArrayFromIntArray2Slice)
	case 18:
		vpFromS("Int4RangeArrayFromInt8Array2Slice", Int4RangeArrayFromInt8Array2Slice)
	case 19:
		vpFromS("Int4RangeArrayFromInt16Array2Slice", Int4RangeArrayFromInt16Array2Slice)
	case 20:
		vpFromS("Int4RangeArrayFromInt32Array2Slice", Int4RangeArrayFromInt32Array2Slice)
	case 21:
		vpFromS("Int4RangeArrayFromInt64Array2Slice", Int4RangeArrayFromInt64Array2Slice)
	case 22:
		vpFromS("Int4RangeArrayFromUintArray2Slice", Int4RangeArrayFromUintArray2Slice)
	case 23:
		vpFromS("Int4RangeArrayFromUint8Array2Slice", Int4RangeArrayFromUint8Array2Slice)
	case 24:
		vpFromS("Int4RangeArrayFromUint16Array2Slice", Int4RangeArrayFromUint16Array2Slice)
	case 25:
		vpFromS("Int4RangeArrayFromUint32Array2Slice", Int4RangeArrayFromUint32Array2Slice)
	case 26:
		vpFromS("Int4RangeArrayFromUint64Array2Slice", Int4RangeArrayFromUint64Array2Slice)
	case 27:
		vpFromS("Int4RangeArrayFromFloat32Array2Slice", Int4RangeArrayFromFloat32Array2Slice)
	case 28:
		vpFromS("Int4RangeArrayFromFloat64Array2Slice", Int4RangeArrayFromFloat64Array2Slice)
	case 29:
		vpFromS("Int8ArrayFromIntSlice", Int8ArrayFromIntSlice)
	case 30:
		vpFromS("Int8ArrayFromInt8Slice", Int8ArrayFromInt8Slice)
	case 31:
		vpFromS("Int8ArrayFromInt16Slice", Int8ArrayFromInt16Slice)
	case 32:
		vpFromS("Int8ArrayFromInt32Slice", Int8ArrayFromInt32Slice)
	case 33:
		vpFromS("Int8ArrayFromInt64Slice", Int8ArrayFromInt64Slice)
	case 34:
		vpFromS("Int8ArrayFromUintSlice", Int8ArrayFromUintSlice)
	case 35:
		vpFromS("Int8ArrayFromUint8Slice", Int8ArrayFromUint8Slice)
	case 36:
		vpFromS("Int8ArrayFromUint16Slice", Int8ArrayFromUint16Slice)
	case 37:
		vpFromS("Int8ArrayFromUint32Slice", Int8ArrayFromUint32Slice)
	case 38:
		vpFromS("Int8ArrayFromUint64Slice", Int8ArrayFromUint64Slice)
	case 39:
		vpFromS("Int8ArrayFromFloat32Slice", Int8ArrayFromFloat32Slice)
	case 40:
		vpFromS("Int8ArrayFromFloat64Slice", Int8ArrayFromFloat64Slice)
	case 41:
		vpFromS("Int8RangeArrayFromIntArray2Slice", Int8RangeArrayFromIntArray2Slice)
	case 42:
		vpFromS("Int8RangeArrayFromInt8Array2Slice", Int8RangeArrayFromInt8Array2Slice)
	case 43:
		vpFromS("Int8RangeArrayFromInt16Array2Slice", Int8RangeArrayFromInt16Array2Slice)
	case 44:
		vpFromS("Int8RangeArrayFromInt32Array2Slice", Int8RangeArrayFromInt32Array2Slice)
	case 45:
		vpFromS("Int8RangeArrayFromInt64Array2Slice", Int8RangeArrayFromInt64Array2Slice)
	case 46:
		vpFromS("Int8RangeArrayFromUintArray2Slice", Int8RangeArrayFromUintArray2Slice)
	case 47:
		vpFromS("Int8RangeArrayFromUint8Array2Slice", Int8RangeArrayFromUint8Array2Slice)
	case 48:
		vpFromS("Int8RangeArrayFromUint16Array2Slice", Int8RangeArrayFromUint16Array2Slice)
	case 49:
		vpFromS("Int8RangeArrayFromUint32Array2Slice", Int8RangeArrayFromUint32Array2Slice)
	case 50:
		vpFromS("Int8RangeArrayFromUint64Array2Slice", Int8RangeArrayFromUint64Array2Slice)
	case 51:
		vpFromS("Int8RangeArrayFromFloat32Array2Slice", Int8RangeArrayFromFloat32Array2Slice)
	case 52:
		vpFromS("Int8RangeArrayFromFloat64Array2Slice", Int8RangeArrayFromFloat64Array2Slice)
	case 53:
		vpFromSS("JSONArrayFromByteSliceSlice", JSONArrayFromByteSliceSlice)
	case 54:
		vpFromS("LineArrayFromFloat64Array3Slice", LineArrayFromFloat64Array3Slice)
	case 55:
		vpFromS("LsegArrayFromFloat64Array2Array2Slice", LsegArrayFromFloat64Array2Array2Slice)
	case 56:
		vpFromS("MACAddrFromHardwareAddr", MACAddrFromHardwareAddr)
	case 57:
		vpFromS("MACAddr8FromHardwareAddr", MACAddr8FromHardwareAddr)
	case 58:
		vpFromSS("MACAddr8ArrayFromHardwareAddrSlice", MACAddr8ArrayFromHardwareAddrSlice)
	default:
		vpFromSS("MACAddrArrayFromHardwareAddrSlice", MACAddrArrayFromHardwareAddrSlice)
	}
}

func VP_P16_Value3() {
	vpReach("run")
	switch vpChoose(56) {
	case 0:
		vpFromS("MoneyArrayFromInt64Slice", MoneyArrayFromInt64Slice)
	case 1:
		vpFromS("NumericArrayFromIntSlice", NumericArrayFromIntSlice)
	case 2:
		vpFromS("NumericArrayFromInt8Slice", NumericArrayFromInt8Slice)
	case 3:
		vpFromS("NumericArrayFromInt16Slice", NumericArrayFromInt16Slice)
	case 4:
		vpFromS("NumericArrayFromInt32Slice", NumericArrayFromInt32Slice)
	case 5:
		vpFromS("NumericArrayFromInt64Slice", NumericArrayFromInt64Slice)
	case 6:
		vpFromS("NumericArrayFromUintSlice", NumericArrayFromUintSlice)
	case 7:
		vpFromS("NumericArrayFromUint8Slice", NumericArrayFromUint8Slice)
	case 8:
		vpFromS("NumericArrayFromUint16Slice", NumericArrayFromUint16Slice)
	case 9:
		vpFromS("NumericArrayFromUint32Slice", NumericArrayFromUint32Slice)
	case 10:
		vpFromS("NumericArrayFromUint64Slice", NumericArrayFromUint64Slice)
	case 11:
		vpFromS("NumericArrayFromFloat32Slice", NumericArrayFromFloat32Slice)
	case 12:
		vpFromS("NumericArrayFromFloat64Slice", NumericArrayFromFloat64Slice)
	case 13:
		vpFromS("NumRangeArrayFromIntArray2Slice", NumRangeArrayFromIntArray2Slice)
	case 14:
		vpFromS("NumRangeArrayFromInt8Array2Slice", NumRangeArrayFromInt8Array2Slice)
	case 15:
		vpFromS("NumRangeArrayFromInt16Array2Slice", NumRangeArrayFromInt16Array2Slice)
	case 16:
		vpFromS("NumRangeArrayFromInt32Array2Slice", NumRangeArrayFromInt32Array2Slice)
	case 17:
		vpFromS("NumRangeArrayFromInt64Array2Slice", NumRangeArrayFromInt64Array2Slice)
	case 18:
		vpFromS("NumRangeArrayFromUintArray2Slice", NumRangeArrayFromUintArray2Slice)
	case 19:
		vpFromS("NumRangeArrayFromUint8Array2Slice", NumRangeArrayFromUint8Array2Slice)
	case 20:
		vpFromS("NumRangeArrayFromUint16Array2Slice", NumRangeArrayFromUint16Array2Slice)
	case 21:
		vpFromS("NumRangeArrayFromUint32Array2Slice", NumRangeArrayFromUint32Array2Slice)
	case 22:
		vpFromS("NumRangeArrayFromUint64Array2Slice", NumRangeArrayFromUint64Array2Slice)
	case 23:
		vpFromS("NumRangeArrayFromFloat32Array2Slice", NumRangeArrayFromFloat32Array2Slice)
	case 24:
		vpFromS("NumRangeArrayFromFloat64Array2Slice", NumRangeArrayFromFloat64Array2Slice)
	case 25:
		vpFromS("PathFromFloat64Array2Slice", PathFromFloat64Array2Slice)
	case 26:
		vpFromSS("PathArrayFromFloat64Array2SliceSlice", PathArrayFromFloat64Array2SliceSlice)
	case 27:
		vpFromS("PointArrayFromFloat64Array2Slice", PointArrayFromFloat64Array2Slice)
	case 28:
		vpFromS("PolygonFromFloat64Array2Slice", PolygonFromFloat64Array2Slice)
	case 29:
		vpFromSS("PolygonArrayFromFloat64Array2SliceSlice", PolygonArrayFromFloat64Array2SliceSlice)
	case 30:
		vpFromS("TextArrayFromStringSlice", TextArrayFromStringSlice)
	case 31:
		vpFromSS("TextArrayFromByteSliceSlice", TextArrayFromByteSliceSlice)
	case 32:
		vpFromS("TimeArrayFromTimeSlice", TimeArrayFromTimeSlice)
	case 33:
		vpFromS("TimestampArrayFromTimeSlice", TimestampArrayFromTimeSlice)
	case 34:
		vpFromS("TimestamptzArrayFromTimeSlice", TimestamptzArrayFromTimeSlice)
	case 35:
		vpFromS("TimetzArrayFromTimeSlice", TimetzArrayFromTimeSlice)
	case 36:
		vpFromS("TSQueryArrayFromStringSlice", TSQueryArrayFromStringSlice)
	case 37:
		vpFromSS("TSQueryArrayFromByteSliceSlice", TSQueryArrayFromByteSliceSlice)
	case 38:
		vpFromS("TsRangeArrayFromTimeArray2Slice", TsRangeArrayFromTimeArray2Slice)
	case 39:
		vpFromS("TstzRangeArrayFromTimeArray2Slice", TstzRangeArrayFromTimeArray2Slice)
	case 40:
		vpFromS("TSVectorFromStringSlice", TSVectorFromStringSlice)
	case 41:
		vpFromSS("TSVectorFromByteSliceSlice", TSVectorFromByteSliceSlice)
	case 42:
		vpFromSS("TSVectorArrayFromStringSliceSlice", TSVectorArrayFromStringSliceSlice)
	case 43:
		vpFromSSS("TSVectorArrayFromByteSliceSliceSlice", TSVectorArrayFromByteSliceSliceSlice)
	case 44:
		vpFromS("UUIDArrayFromByteArray16Slice", UUIDArrayFromByteArray16Slice)
	case 45:
		vpFromS("UUIDArrayFromStringSlice", UUIDArrayFromStringSlice)
	case 46:
		vpFromSS("UUIDArrayFromByteSliceSlice", UUIDArrayFromByteSliceSlice)
	case 47:
		vpFromS("VarBitFromBoolSlice", VarBitFromBoolSlice)
	case 48:
		vpFromS("VarBitFromUint8Slice", VarBitFromUint8Slice)
	case 49:
		vpFromSS("VarBitArrayFromBoolSliceSlice", VarBitArrayFromBoolSliceSlice)
	case 50:
		vpFromSS("VarBitArrayFromUint8SliceSlice", VarBitArrayFromUint8SliceSlice)
	case 51:
		vpFromS("VarBitArrayFromStringSlice", VarBitArrayFromStringSlice)
	case 52:
		vpFromS("VarBitArrayFromInt64Slice", VarBitArrayFromInt64Slice)
	case 53:
		vpFromS("VarCharArrayFromStringSlice", VarCharArrayFromStringSlice)
	case 54:
		vpFromSS("VarCharArrayFromByteSliceSlice", VarCharArrayFromByteSliceSlice)
	default:
		vpFromSS("XMLArrayFromByteSliceSlice", XMLArrayFromByteSliceSlice)
	}
}

