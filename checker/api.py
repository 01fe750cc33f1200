"""What the Python C API functions promise (CPython 3.12 documentation), as far as the checkers need it.

ret   N    new reference, or NULL with an exception set
      Nx   new reference, cannot fail
      B    borrowed reference, or NULL with an exception set
      Bn   borrowed reference or NULL, never an exception
      Bx   borrowed reference, never NULL
      it   PyIter_Next: new reference / NULL without exception (end) / NULL with exception
      S    0, or -1 with an exception set
      T    0/1, or -1 with an exception set
      L    >= 0, or -1 with an exception set
      I    any value, or -1 with an exception set
      b    0/1, cannot fail
      i    any integer, cannot fail
      z    non-negative integer, cannot fail
      V    nothing
      E0   sets an exception, returns NULL / nothing
      M    raw memory or NULL, no exception
      P    raw pointer, or NULL with an exception set
      PA   1, or 0 with an exception set (argument parsing)
py    may run arbitrary Python code
outs  {index: kind} of pointers the function writes through ('z' non-negative, 'p' non-null pointer, 'f' flag zero on success, 'b' borrowed object or NULL, 's' anything)
steal indexes of arguments whose reference is consumed (also on failure unless 'steal_ok')
nul   indexes of object arguments that may be NULL
"""

class A:
    __slots__ = ('ret', 'py', 'steal', 'steal_ok', 'nul', 'objs', 'excok', 'outs')
    def __init__(s, ret, py=False, steal=(), steal_ok=(), nul=(), objs=None, excok=False, outs=None):
        s.outs = outs or {}
        s.ret, s.py, s.steal, s.steal_ok, s.nul, s.objs, s.excok = ret, py, tuple(steal), tuple(steal_ok), tuple(nul), objs, excok

def mk(ret, names, **kw):
    for n in names.split():
        API[n] = A(ret, **kw)

API = {}
mk('N', 'PyObject_GetItem PyObject_GetIter PyObject_Repr PyObject_Str PyObject_ASCII PyObject_Bytes PyObject_GetAttr '
   'PySequence_Concat PySequence_Repeat PySequence_InPlaceConcat PySequence_InPlaceRepeat PySequence_Fast PySequence_GetItem PySequence_GetSlice PySequence_List PySequence_Tuple '
   'PyMapping_Keys PyMapping_Values PyMapping_Items PyNumber_Index PyNumber_Long PyNumber_Float PyNumber_Add PyNumber_Subtract '
   'PyNumber_Multiply PyNumber_FloorDivide PyNumber_Remainder PyNumber_Negative PyNumber_InPlaceAdd PyNumber_InPlaceMultiply '
   'PyObject_RichCompare PyObject_Type PyObject_Dir PyImport_ImportModule PyImport_Import PyObject_CallNoArgs PyObject_CallOneArg PyObject_GenericGetAttr', py=True)
mk('N', 'PyObject_GetAttrString PyMapping_GetItemString', py=True, objs=(0,))
mk('N', 'PyObject_CallObject', py=True, nul=(1,))
mk('N', 'PyObject_Call', py=True, nul=(2,))
mk('N', 'PyObject_Vectorcall PyObject_VectorcallDict PyVectorcall_Call', py=True, objs=(0,))
mk('N', 'PyObject_CallFunction PyObject_CallMethod PyObject_CallFunctionObjArgs PyObject_CallMethodObjArgs PyObject_CallMethodNoArgs PyObject_CallMethodOneArg', py=True, objs=(0,))
mk('N', 'PyList_New PyTuple_New PyDict_New PySet_New PyLong_FromLong PyLong_FromLongLong PyLong_FromUnsignedLong PyLong_FromUnsignedLongLong '
   'PyLong_FromSsize_t PyLong_FromSize_t PyLong_FromVoidPtr PyLong_FromDouble PyLong_FromString PyFloat_FromDouble PyBool_FromLong '
   'PyUnicode_FromString PyUnicode_FromStringAndSize PyUnicode_FromFormat PyBytes_FromString PyBytes_FromStringAndSize PyModule_Create2 '
   '_PyObject_New _PyObject_GC_New PyType_GenericAlloc PyMemoryView_FromMemory PySlice_New _PyLong_FromDigits PyErr_NewException PyUnicode_New', objs=())
mk('N', 'PyList_AsTuple PyList_GetSlice PyTuple_GetSlice PyUnicode_Concat PyUnicode_Join PyUnicode_Substring Py_GenericAlias PyMemoryView_FromObject PyDict_Copy PyType_FromSpec PyUnicode_FromObject PyDict_Keys PyDict_Values PyDict_Items')
mk('N', 'Py_BuildValue PyTuple_Pack', objs=())
mk('N', 'PyType_GenericNew', objs=(0,))
mk('it', 'PyIter_Next', py=True)
mk('B', 'PyDict_GetItemWithError', py=True)
mk('Bn', 'PyDict_GetItem', py=True)
mk('Bn', 'PyDict_GetItemString', objs=(0,))
mk('B', 'PyList_GetItem PyTuple_GetItem PyModule_GetDict')
mk('B', 'PyImport_AddModule', objs=())
mk('Bx', 'Py_TYPE PyList_GET_ITEM PyTuple_GET_ITEM')
mk('b', '_Py_IsImmortal')
mk('N', 'PyInit_SIMDLowAVX512', objs=())
mk('Bn', 'PyErr_Occurred', excok=True, objs=())
mk('S', 'PyObject_SetItem PyObject_DelItem PySequence_SetItem PySequence_DelItem PyDict_SetItem PyDict_DelItem', py=True)
mk('S', 'PyObject_SetAttr', py=True, nul=(2,))
mk('S', 'PyObject_SetAttrString', py=True, objs=(0, 2), nul=(2,))
mk('S', 'PyDict_SetItemString', objs=(0, 2))
mk('S', 'PyList_Append PyList_Insert PyList_Sort PyList_Reverse', objs=(0,))
mk('S', 'PyType_Ready PyModule_AddType PyUnicode_Resize _PyBytes_Resize PyModule_AddObjectRef PyModule_AddIntConstant PyModule_AddStringConstant', objs=(0,))
mk('S', 'PyModule_AddObject', objs=(0, 2), steal_ok=(2,))
mk('S', 'PyList_SetItem PyTuple_SetItem', objs=(0,), steal=(2,))
mk('V', 'PyList_SET_ITEM PyTuple_SET_ITEM', objs=(0,), steal=(2,), nul=(2,), excok=True)
mk('S', 'PySlice_Unpack', py=True, objs=(0,))
mk('S', 'PySlice_GetIndices PySlice_GetIndicesEx', py=True, objs=(0,))
mk('z', 'PySlice_AdjustIndices', objs=())
mk('T', 'PyObject_RichCompareBool PyObject_IsTrue PyObject_Not PyObject_IsInstance PyObject_IsSubclass PySequence_Contains PyDict_Contains PySet_Contains', py=True)
mk('b', 'PyObject_HasAttr', py=True)
mk('b', 'PyObject_HasAttrString', py=True, objs=(0,))
mk('L', 'PyObject_Size PyObject_Length PySequence_Size PySequence_Length PyMapping_Size PyMapping_Length PySequence_Count PySequence_Index', py=True)
mk('L', 'PyObject_LengthHint', py=True, objs=(0,))
mk('L', 'PyList_Size PyTuple_Size PyDict_Size PyBytes_Size PyUnicode_GetLength')
mk('I', 'PyObject_Hash', py=True)
mk('I', 'PyLong_AsLong PyLong_AsLongLong PyLong_AsInt _PyLong_AsInt PyLong_AsUnsignedLongMask PyLong_AsUnsignedLongLongMask PyFloat_AsDouble PyNumber_AsSsize_t PyLong_AsLongAndOverflow', py=True, objs=(0,))
mk('I', 'PyLong_AsSsize_t PyLong_AsSize_t PyLong_AsUnsignedLong PyLong_AsUnsignedLongLong', objs=(0,))
mk('P', 'PyLong_AsVoidPtr')           # NULL is also the value of 0: see engine
mk('P', 'PyUnicode_AsUTF8 PyBytes_AsString PyUnicode_AsUTF8AndSize', objs=(0,))
mk('z', 'PyList_GET_SIZE PyTuple_GET_SIZE PySequence_Fast_GET_SIZE PyBytes_GET_SIZE PyUnicode_GET_LENGTH Py_SIZE')
mk('i', 'Py_REFCNT')
mk('b', 'PyIndex_Check PyIter_Check PySequence_Check PyMapping_Check PyCallable_Check PyNumber_Check PyType_IsSubtype PyObject_TypeCheck', excok=True)
mk('b', 'PyType_HasFeature', excok=True, objs=())
mk('E0', 'PyErr_SetString PyErr_SetNone PyErr_SetObject PyErr_Format PyErr_NoMemory PyErr_BadArgument PyErr_BadInternalCall PyErr_SetFromErrno _PyErr_BadInternalCall PyErr_FormatV', excok=True, objs=())
mk('V', 'PyErr_Clear PyErr_Print PyErr_WriteUnraisable', excok=True, objs=())
mk('b', 'PyErr_ExceptionMatches', excok=True, objs=())
mk('M', 'PyMem_Malloc PyMem_Realloc PyMem_Calloc PyObject_Malloc PyMem_RawMalloc PyMem_RawCalloc PyMem_RawRealloc', excok=True, objs=())
mk('V', 'PyMem_Free PyMem_RawFree', excok=True, objs=())
mk('V', 'PyUnicode_AppendAndDel PyUnicode_Append', objs=(), excok=True)
mk('PA', 'PyArg_ParseTuple PyArg_UnpackTuple', py=True, objs=(0,))
mk('PA', 'PyArg_ParseTupleAndKeywords', py=True, objs=(0,), nul=(1,))
mk('PA', 'PyArg_Parse', py=True, objs=())
mk('b', 'PyDict_Next', objs=(0,))
mk('S', 'PyObject_GetBuffer', py=True, objs=(0,))
mk('V', 'PyBuffer_Release', py=True, objs=(), excok=True)
mk('S', 'PyBuffer_FillInfo', objs=())
mk('V', 'PyObject_GC_Track PyObject_GC_UnTrack PyObject_GC_Del PyObject_ClearWeakRefs', objs=(), excok=True)
mk('M', 'PyEval_SaveThread PyThreadState_Get PyThreadState_GetUnchecked', objs=(), excok=True)
mk('V', 'PyEval_RestoreThread', objs=(), excok=True)
mk('i', 'PyGILState_Ensure PyGILState_Check', objs=(), excok=True)
mk('V', 'PyGILState_Release', objs=(), excok=True)
mk('P', 'PyCapsule_GetPointer', objs=())

# less common functions
mk('N', 'PyNumber_Absolute PyNumber_And PyNumber_Divmod PyNumber_InPlaceAnd PyNumber_InPlaceFloorDivide PyNumber_InPlaceLshift PyNumber_InPlaceMatrixMultiply PyNumber_InPlaceOr '
   'PyNumber_InPlacePower PyNumber_InPlaceRemainder PyNumber_InPlaceRshift PyNumber_InPlaceSubtract PyNumber_InPlaceTrueDivide PyNumber_InPlaceXor PyNumber_Invert PyNumber_Lshift '
   'PyNumber_MatrixMultiply PyNumber_Or PyNumber_Positive PyNumber_Power PyNumber_Rshift PyNumber_TrueDivide PyNumber_Xor PyUnicode_Format PyImport_ReloadModule PyImport_GetModule '
   'PyObject_GetAIter PyObject_GenericGetDict PyByteArray_FromObject PyBytes_FromObject PyFloat_FromString PyFile_GetLine PyDictProxy_New PyCallIter_New PySeqIter_New PyObject_VectorcallMethod', py=True)
mk('N', 'PyNumber_ToBase PyBytes_Repr PyFile_GetLine', py=True, objs=(0,))
mk('N', 'PyObject_Format', py=True, nul=(1,))
mk('N', 'PyFrozenSet_New', py=True, nul=(0,))
mk('N', 'PyEval_CallObjectWithKeywords PyObject_VectorcallMethod PyImport_ImportModuleLevel PyImport_ImportModuleLevelObject PyRun_String PyRun_StringFlags PyRun_StringFlags PyEval_EvalCode', py=True, objs=(0,))
mk('N', 'PyByteArray_FromStringAndSize PyBytes_FromFormat PyBytes_FromFormatV PyComplex_FromDoubles PyCapsule_New PyErr_NewExceptionWithDoc PyUnicode_FromOrdinal PyUnicode_FromKindAndData '
   'PyUnicode_FromWideChar PyUnicode_InternFromString PyUnicode_Decode PyUnicode_DecodeUTF8 PyUnicode_DecodeLatin1 PyUnicode_DecodeASCII PyUnicode_DecodeLocale PyUnicode_DecodeFSDefault '
   'PyUnicode_DecodeFSDefaultAndSize PyUnicode_FromFormatV PyMemoryView_FromBuffer PyContextVar_New PyCell_New PyFloat_GetInfo PyLong_GetInfo PyCFunction_NewEx PyCFunction_New PyCMethod_New '
   'PyType_FromSpecWithBases PyType_FromModuleAndSpec PySlice_New PyImport_ExecCodeModule PyStructSequence_New PyStructSequence_NewType PyModule_New', objs=())
mk('N', 'PyByteArray_Concat PyUnicode_AsASCIIString PyUnicode_AsLatin1String PyUnicode_AsUTF8String PyUnicode_AsUTF16String PyUnicode_AsUTF32String PyUnicode_AsUnicodeEscapeString '
   'PyUnicode_EncodeFSDefault PyUnicode_RichCompare PyUnicode_Partition PyUnicode_RPartition PyUnicode_Replace PyLong_FromUnicodeObject PyModule_GetNameObject PyModule_GetFilenameObject '
   'PyType_GetName PyType_GetQualName PySet_Pop PyException_GetArgs PyMethod_New PyInstanceMethod_New PyStaticMethod_New PyClassMethod_New')
mk('N', 'PyUnicode_AsEncodedString PyUnicode_FromEncodedObject PyUnicode_Translate PyUnicode_Splitlines PyUnicode_Split PyUnicode_RSplit PyMemoryView_GetContiguous PyWeakref_NewRef PyWeakref_NewProxy', objs=(0,))
mk('Nx', 'PyObject_SelfIter')
mk('Bn', 'PySys_GetObject PyThreadState_GetDict PyEval_GetBuiltins PyEval_GetGlobals', objs=())
mk('Bn', 'PyWeakref_GetObject', objs=(0,))
mk('B', 'PyDict_SetDefault PyImport_AddModuleObject', py=True)
mk('Bx', 'PyImport_GetModuleDict', objs=())
mk('S', 'PyDict_Merge PyDict_Update PyDict_MergeFromSeq2 PySet_Add PyFile_WriteObject', py=True)
mk('S', 'PyDict_DelItemString PyObject_DelItemString PySequence_DelSlice PyFile_WriteString PyObject_Print PyObject_GenericSetAttr PySet_Clear', py=True, objs=(0,))
mk('S', 'PyList_SetSlice PySequence_SetSlice', py=True, objs=(0,))
mk('S', 'PyMapping_SetItemString', py=True, objs=(0, 2))
mk('S', 'PyErr_WarnEx PyErr_WarnFormat PyErr_ResourceWarning PyErr_WarnExplicit PyErr_CheckSignals Py_MakePendingCalls', py=True, objs=())
mk('S', 'PyModule_AddFunctions PyModule_SetDocString PyModule_ExecDef PyByteArray_Resize PyCapsule_SetPointer PyCapsule_SetName PyCapsule_SetContext PyCapsule_SetDestructor', objs=(0,))
mk('S', 'PySys_SetObject PyState_AddModule PyState_RemoveModule Py_EnterRecursiveCall', objs=())
mk('S', 'PyBytes_AsStringAndSize', objs=(0,), outs={1: 'p', 2: 'z'})
mk('V', 'PyDict_Clear', py=True)
mk('V', 'Py_LeaveRecursiveCall PyUnicode_InternInPlace PyType_Modified PyBytes_ConcatAndDel PyBytes_Concat', objs=(), excok=True)
mk('V', 'PyException_SetCause PyException_SetContext', objs=(0,), steal=(1,), nul=(1,), excok=True)
mk('T', 'PySequence_In PySet_Discard', py=True)
mk('T', 'PyUnicode_Contains PyUnicode_Tailmatch', objs=(0, 1))
mk('b', 'PyMapping_HasKey', py=True)
mk('b', 'PyMapping_HasKeyString', py=True, objs=(0,))
mk('b', 'PyAIter_Check PyObject_CheckBuffer PyCapsule_IsValid PyUnicode_IsIdentifier PyObject_GC_IsTracked PyObject_GC_IsFinalized PyErr_GivenExceptionMatches PyBuffer_IsContiguous Py_Is Py_IsNone Py_IsTrue Py_IsFalse Py_IsInitialized PyGC_IsEnabled PyGC_Enable PyGC_Disable PyUnicode_CompareWithASCIIString', excok=True, objs=())
mk('i', 'PyRun_SimpleString PyRun_SimpleStringFlags PyGC_Collect', py=True, objs=())
mk('i', 'PyType_GetFlags PyVectorcall_NARGS', objs=(), excok=True)
mk('L', 'PySet_Size PyByteArray_Size PyUnicode_Count', objs=(0,))
mk('z', 'PySet_GET_SIZE PyDict_GET_SIZE PyByteArray_GET_SIZE')
mk('I', 'PyLong_AsDouble PyComplex_RealAsDouble PyComplex_ImagAsDouble PyUnicode_Compare PyUnicode_Find PyUnicode_FindChar', objs=(0,))
mk('I', 'PyObject_AsFileDescriptor', py=True, objs=(0,))
mk('I', 'PyLong_AsLongAndOverflow PyLong_AsLongLongAndOverflow', py=True, objs=(0,), outs={1: 'f'})
mk('P', 'PyUnicode_AsUTF8AndSize', objs=(0,), outs={1: 'z'})
mk('P', 'PyUnicode_AsWideCharString', objs=(0,), outs={1: 'z'})
mk('P', 'PyByteArray_AsString PyModule_GetName PyCapsule_Import', objs=())
mk('M', 'PyModule_GetState PyCapsule_GetName PyCapsule_GetContext PyObject_Calloc PyObject_Realloc PyVectorcall_Function PyInterpreterState_Get PyThread_allocate_lock', excok=True, objs=())
mk('V', 'PySys_WriteStdout PySys_WriteStderr PySys_FormatStdout PySys_FormatStderr PyErr_PrintEx PyErr_DisplayException PyErr_SetInterrupt', py=True, excok=True, objs=())
mk('E0', 'PyErr_SetFromErrnoWithFilename PyErr_SetFromErrnoWithFilenameObject PyErr_SetImportError PyErr_SetExcInfo', excok=True, objs=())
mk('S', 'PyObject_HasAttrStringWithError PyObject_HasAttrWithError', py=True, objs=(0,))

# usable without the GIL
NOGIL = {'PyEval_RestoreThread', 'PyGILState_Ensure', 'PyGILState_Release', 'PyGILState_Check',
         'PyMem_RawMalloc', 'PyMem_RawCalloc', 'PyMem_RawRealloc', 'PyMem_RawFree', 'Py_TYPE', 'PyEval_AcquireThread'}
# results whose deallocation runs no user code
PLAIN = {'PyList_New', 'PyTuple_New', 'PyDict_New', 'PyLong_FromLong', 'PyLong_FromLongLong', 'PyLong_FromSsize_t', 'PyLong_FromSize_t',
         'PyLong_FromUnsignedLong', 'PyLong_FromUnsignedLongLong', 'PyLong_FromVoidPtr', 'PyLong_FromDouble', 'PyFloat_FromDouble',
         'PyUnicode_FromString', 'PyUnicode_FromFormat', 'PyUnicode_FromStringAndSize', 'PyBytes_FromStringAndSize', 'PyBytes_FromString',
         '_PyLong_FromDigits', 'PyBool_FromLong', 'PySequence_Fast', '_PyObject_New', 'PyType_GenericAlloc', 'PyNumber_Index', 'PyNumber_Long',
         'PyObject_Repr', 'PyObject_Str', 'PyModule_Create2', 'PySlice_New', 'PyUnicode_Concat', 'PyUnicode_Join', 'PyMemoryView_FromMemory'}

TPFLAG = {1 << 24: 'int', 1 << 25: 'list', 1 << 26: 'tuple', 1 << 27: 'bytes', 1 << 28: 'str', 1 << 29: 'dict'}
