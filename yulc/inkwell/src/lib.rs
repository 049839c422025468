//! The part of the `inkwell` API that the compiler uses, as a thin layer over the LLVM-C API of the
//! installed libLLVM-16 (the crate itself is not available offline). It holds no logic of its own.
#![allow(clippy::all, dead_code, non_camel_case_types, non_snake_case)]
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};
use std::fmt;
use std::marker::PhantomData;

pub mod sys {
    use super::*;
    pub type Ref = *mut c_void;
    extern "C" {
        pub fn LLVMContextCreate() -> Ref;
        pub fn LLVMModuleCreateWithNameInContext(n: *const c_char, c: Ref) -> Ref;
        pub fn LLVMCreateBuilderInContext(c: Ref) -> Ref;
        pub fn LLVMDisposeBuilder(c: Ref);
        pub fn LLVMAppendBasicBlockInContext(c: Ref, f: Ref, n: *const c_char) -> Ref;
        pub fn LLVMInsertBasicBlockInContext(c: Ref, b: Ref, n: *const c_char) -> Ref;
        pub fn LLVMIntTypeInContext(c: Ref, n: c_uint) -> Ref;
        pub fn LLVMVoidTypeInContext(c: Ref) -> Ref;
        pub fn LLVMPointerTypeInContext(c: Ref, a: c_uint) -> Ref;
        pub fn LLVMConstStringInContext(c: Ref, s: *const c_char, n: c_uint, dont_null: c_int) -> Ref;
        pub fn LLVMStructTypeInContext(c: Ref, e: *mut Ref, n: c_uint, packed: c_int) -> Ref;
        pub fn LLVMConstStructInContext(c: Ref, e: *mut Ref, n: c_uint, packed: c_int) -> Ref;
        pub fn LLVMLinkModules2(d: Ref, s: Ref) -> c_int;
        pub fn LLVMAddGlobal(m: Ref, t: Ref, n: *const c_char) -> Ref;
        pub fn LLVMAddGlobalInAddressSpace(m: Ref, t: Ref, n: *const c_char, a: c_uint) -> Ref;
        pub fn LLVMGetNamedGlobal(m: Ref, n: *const c_char) -> Ref;
        pub fn LLVMGetNamedFunction(m: Ref, n: *const c_char) -> Ref;
        pub fn LLVMGetFirstFunction(m: Ref) -> Ref;
        pub fn LLVMGetNextFunction(m: Ref) -> Ref;
        pub fn LLVMAddFunction(m: Ref, n: *const c_char, t: Ref) -> Ref;
        pub fn LLVMSetLinkage(g: Ref, l: c_int);
        pub fn LLVMGetLinkage(g: Ref) -> c_int;
        pub fn LLVMSetGlobalConstant(g: Ref, l: c_int);
        pub fn LLVMSetUnnamedAddress(g: Ref, l: c_int);
        pub fn LLVMSetInitializer(g: Ref, v: Ref);
        pub fn LLVMGetInitializer(g: Ref) -> Ref;
        pub fn LLVMSetAlignment(g: Ref, v: c_uint);
        pub fn LLVMPrintModuleToFile(m: Ref, f: *const c_char, e: *mut *mut c_char) -> c_int;
        pub fn LLVMPrintModuleToString(m: Ref) -> *mut c_char;
        pub fn LLVMPrintValueToString(m: Ref) -> *mut c_char;
        pub fn LLVMPrintTypeToString(m: Ref) -> *mut c_char;
        pub fn LLVMDisposeMessage(m: *mut c_char);
        pub fn LLVMVerifyModule(m: Ref, action: c_int, e: *mut *mut c_char) -> c_int;
        pub fn LLVMVerifyFunction(m: Ref, action: c_int) -> c_int;
        pub fn LLVMCreateMemoryBufferWithMemoryRangeCopy(d: *const c_char, n: usize, name: *const c_char) -> Ref;
        pub fn LLVMDisposeMemoryBuffer(m: Ref);
        pub fn LLVMGetBufferStart(m: Ref) -> *const c_char;
        pub fn LLVMGetBufferSize(m: Ref) -> usize;
        pub fn LLVMParseBitcodeInContext2(c: Ref, b: Ref, out: *mut Ref) -> c_int;
        pub fn LLVMSetTarget(m: Ref, t: *const c_char);
        pub fn LLVMSetSourceFileName(m: Ref, t: *const c_char, n: usize);
        // types
        pub fn LLVMGetTypeKind(t: Ref) -> c_int;
        pub fn LLVMTypeIsSized(t: Ref) -> c_int;
        pub fn LLVMGetIntTypeWidth(t: Ref) -> c_uint;
        pub fn LLVMArrayType(t: Ref, n: c_uint) -> Ref;
        pub fn LLVMGetArrayLength(t: Ref) -> c_uint;
        pub fn LLVMGetElementType(t: Ref) -> Ref;
        pub fn LLVMFunctionType(r: Ref, p: *mut Ref, n: c_uint, va: c_int) -> Ref;
        pub fn LLVMGetReturnType(t: Ref) -> Ref;
        pub fn LLVMCountParamTypes(t: Ref) -> c_uint;
        pub fn LLVMGetParamTypes(t: Ref, d: *mut Ref);
        pub fn LLVMCountStructElementTypes(t: Ref) -> c_uint;
        pub fn LLVMStructGetTypeAtIndex(t: Ref, i: c_uint) -> Ref;
        pub fn LLVMConstInt(t: Ref, v: c_ulonglong, sx: c_int) -> Ref;
        pub fn LLVMConstIntOfArbitraryPrecision(t: Ref, n: c_uint, w: *const u64) -> Ref;
        pub fn LLVMConstIntOfStringAndSize(t: Ref, s: *const c_char, n: c_uint, r: u8) -> Ref;
        pub fn LLVMConstNull(t: Ref) -> Ref;
        pub fn LLVMConstAllOnes(t: Ref) -> Ref;
        pub fn LLVMGetUndef(t: Ref) -> Ref;
        pub fn LLVMGetPoison(t: Ref) -> Ref;
        pub fn LLVMConstArray(t: Ref, v: *mut Ref, n: c_uint) -> Ref;
        pub fn LLVMGetTypeContext(t: Ref) -> Ref;
        // values
        pub fn LLVMTypeOf(v: Ref) -> Ref;
        pub fn LLVMGlobalGetValueType(v: Ref) -> Ref;
        pub fn LLVMIsConstant(v: Ref) -> c_int;
        pub fn LLVMIsUndef(v: Ref) -> c_int;
        pub fn LLVMIsAConstantInt(v: Ref) -> Ref;
        pub fn LLVMConstIntGetZExtValue(v: Ref) -> c_ulonglong;
        pub fn LLVMConstIntGetSExtValue(v: Ref) -> i64;
        pub fn LLVMIsNull(v: Ref) -> c_int;
        pub fn LLVMGetParam(v: Ref, i: c_uint) -> Ref;
        pub fn LLVMCountParams(v: Ref) -> c_uint;
        pub fn LLVMGetValueName2(v: Ref, n: *mut usize) -> *const c_char;
        pub fn LLVMSetValueName2(v: Ref, s: *const c_char, n: usize);
        pub fn LLVMCountBasicBlocks(v: Ref) -> c_uint;
        pub fn LLVMGetFirstBasicBlock(v: Ref) -> Ref;
        pub fn LLVMGetLastBasicBlock(v: Ref) -> Ref;
        pub fn LLVMGetEntryBasicBlock(v: Ref) -> Ref;
        pub fn LLVMGetBasicBlockTerminator(b: Ref) -> Ref;
        pub fn LLVMGetBasicBlockParent(b: Ref) -> Ref;
        pub fn LLVMGetFirstInstruction(b: Ref) -> Ref;
        pub fn LLVMGetLastInstruction(b: Ref) -> Ref;
        pub fn LLVMGetNextInstruction(b: Ref) -> Ref;
        pub fn LLVMGetInstructionParent(b: Ref) -> Ref;
        pub fn LLVMInstructionEraseFromParent(b: Ref);
        pub fn LLVMDeleteFunction(b: Ref);
        pub fn LLVMGetBasicBlockName(b: Ref) -> *const c_char;
        pub fn LLVMMoveBasicBlockAfter(b: Ref, a: Ref);
        pub fn LLVMMoveBasicBlockBefore(b: Ref, a: Ref);
        pub fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
        pub fn LLVMCreateEnumAttribute(c: Ref, k: c_uint, v: u64) -> Ref;
        pub fn LLVMAddAttributeAtIndex(f: Ref, i: c_uint, a: Ref);
        pub fn LLVMSetVolatile(i: Ref, v: c_int);
        // builder
        pub fn LLVMPositionBuilderAtEnd(b: Ref, bb: Ref);
        pub fn LLVMPositionBuilderBefore(b: Ref, i: Ref);
        pub fn LLVMGetInsertBlock(b: Ref) -> Ref;
        pub fn LLVMBuildCall2(b: Ref, t: Ref, f: Ref, a: *mut Ref, n: c_uint, name: *const c_char) -> Ref;
        pub fn LLVMBuildLoad2(b: Ref, t: Ref, p: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildStore(b: Ref, v: Ref, p: Ref) -> Ref;
        pub fn LLVMBuildAlloca(b: Ref, t: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildArrayAlloca(b: Ref, t: Ref, n: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildBr(b: Ref, d: Ref) -> Ref;
        pub fn LLVMBuildCondBr(b: Ref, c: Ref, t: Ref, e: Ref) -> Ref;
        pub fn LLVMBuildRet(b: Ref, v: Ref) -> Ref;
        pub fn LLVMBuildRetVoid(b: Ref) -> Ref;
        pub fn LLVMBuildUnreachable(b: Ref) -> Ref;
        pub fn LLVMBuildICmp(b: Ref, p: c_int, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildStructGEP2(b: Ref, t: Ref, p: Ref, i: c_uint, name: *const c_char) -> Ref;
        pub fn LLVMBuildGEP2(b: Ref, t: Ref, p: Ref, i: *mut Ref, n: c_uint, name: *const c_char) -> Ref;
        pub fn LLVMBuildInBoundsGEP2(b: Ref, t: Ref, p: Ref, i: *mut Ref, n: c_uint, name: *const c_char) -> Ref;
        pub fn LLVMBuildAdd(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildSub(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildMul(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildUDiv(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildSDiv(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildURem(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildSRem(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildShl(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildLShr(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildAShr(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildAnd(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildOr(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildXor(b: Ref, l: Ref, r: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildNot(b: Ref, l: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildNeg(b: Ref, l: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildPtrToInt(b: Ref, v: Ref, t: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildIntToPtr(b: Ref, v: Ref, t: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildBitCast(b: Ref, v: Ref, t: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildPointerCast(b: Ref, v: Ref, t: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildZExt(b: Ref, v: Ref, t: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildSExt(b: Ref, v: Ref, t: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildTrunc(b: Ref, v: Ref, t: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildIntCast2(b: Ref, v: Ref, t: Ref, signed: c_int, name: *const c_char) -> Ref;
        pub fn LLVMBuildSwitch(b: Ref, v: Ref, e: Ref, n: c_uint) -> Ref;
        pub fn LLVMAddCase(s: Ref, v: Ref, d: Ref);
        pub fn LLVMBuildSelect(b: Ref, c: Ref, t: Ref, e: Ref, name: *const c_char) -> Ref;
        pub fn LLVMBuildPhi(b: Ref, t: Ref, name: *const c_char) -> Ref;
        pub fn LLVMAddIncoming(p: Ref, v: *mut Ref, b: *mut Ref, n: c_uint);
        pub fn LLVMBuildExtractValue(b: Ref, v: Ref, i: c_uint, name: *const c_char) -> Ref;
        pub fn LLVMBuildInsertValue(b: Ref, a: Ref, v: Ref, i: c_uint, name: *const c_char) -> Ref;
        pub fn LLVMBuildGlobalString(b: Ref, s: *const c_char, name: *const c_char) -> Ref;
        pub fn LLVMBuildMemCpy(b: Ref, d: Ref, da: c_uint, s: Ref, sa: c_uint, n: Ref) -> Ref;
        pub fn LLVMBuildMemSet(b: Ref, d: Ref, v: Ref, n: Ref, a: c_uint) -> Ref;
        // passes
        pub fn LLVMCreatePassManager() -> Ref;
        pub fn LLVMDisposePassManager(p: Ref);
        pub fn LLVMRunPassManager(p: Ref, m: Ref) -> c_int;
        pub fn LLVMPassManagerBuilderCreate() -> Ref;
        pub fn LLVMPassManagerBuilderDispose(p: Ref);
        pub fn LLVMPassManagerBuilderSetOptLevel(p: Ref, l: c_uint);
        pub fn LLVMPassManagerBuilderSetSizeLevel(p: Ref, l: c_uint);
        pub fn LLVMPassManagerBuilderUseInlinerWithThreshold(p: Ref, l: c_uint);
        pub fn LLVMPassManagerBuilderSetDisableUnrollLoops(p: Ref, l: c_int);
        pub fn LLVMPassManagerBuilderSetDisableUnitAtATime(p: Ref, l: c_int);
        pub fn LLVMPassManagerBuilderSetDisableSimplifyLibCalls(p: Ref, l: c_int);
        pub fn LLVMPassManagerBuilderPopulateModulePassManager(p: Ref, m: Ref);
        // targets
        pub fn LLVMInitializeWebAssemblyTargetInfo();
        pub fn LLVMInitializeWebAssemblyTarget();
        pub fn LLVMInitializeWebAssemblyTargetMC();
        pub fn LLVMInitializeWebAssemblyAsmPrinter();
        pub fn LLVMInitializeWebAssemblyAsmParser();
        pub fn LLVMGetTargetFromName(n: *const c_char) -> Ref;
        pub fn LLVMCreateTargetMachine(t: Ref, tr: *const c_char, cpu: *const c_char, f: *const c_char, l: c_int, r: c_int, c: c_int) -> Ref;
        pub fn LLVMTargetMachineEmitToMemoryBuffer(t: Ref, m: Ref, k: c_int, e: *mut *mut c_char, out: *mut Ref) -> c_int;
    }
}
use sys::*;

fn cs(s: &str) -> CString {
    CString::new(s.replace('\0', "")).unwrap()
}
unsafe fn take(p: *mut c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    LLVMDisposeMessage(p);
    s
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OptimizationLevel {
    None = 0,
    Less = 1,
    Default = 2,
    Aggressive = 3,
}
impl Default for OptimizationLevel {
    fn default() -> Self {
        OptimizationLevel::Default
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IntPredicate {
    EQ = 32,
    NE,
    UGT,
    UGE,
    ULT,
    ULE,
    SGT,
    SGE,
    SLT,
    SLE,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct AddressSpace(u32);
impl From<u16> for AddressSpace {
    fn from(v: u16) -> Self {
        AddressSpace(v as u32)
    }
}

pub mod support {
    #[derive(Clone, PartialEq, Eq)]
    pub struct LLVMString(pub(crate) String);
    impl LLVMString {
        pub fn to_str(&self) -> Result<&str, std::str::Utf8Error> {
            Ok(&self.0)
        }
        pub fn to_bytes(&self) -> &[u8] {
            self.0.as_bytes()
        }
    }
    impl std::fmt::Display for LLVMString {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::fmt::Debug for LLVMString {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self.0)
        }
    }
    impl std::error::Error for LLVMString {}
}
use support::LLVMString;

pub mod memory_buffer {
    use super::*;
    #[derive(Debug)]
    pub struct MemoryBuffer(pub(crate) Ref);
    impl MemoryBuffer {
        pub fn create_from_memory_range(d: &[u8], name: &str) -> Self {
            Self::create_from_memory_range_copy(d, name)
        }
        pub fn create_from_memory_range_copy(d: &[u8], name: &str) -> Self {
            let n = cs(name);
            MemoryBuffer(unsafe { LLVMCreateMemoryBufferWithMemoryRangeCopy(d.as_ptr() as _, d.len(), n.as_ptr()) })
        }
        pub fn as_slice(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(LLVMGetBufferStart(self.0) as *const u8, LLVMGetBufferSize(self.0)) }
        }
        pub fn get_size(&self) -> usize {
            unsafe { LLVMGetBufferSize(self.0) }
        }
    }
    impl Drop for MemoryBuffer {
        fn drop(&mut self) {
            unsafe { LLVMDisposeMemoryBuffer(self.0) }
        }
    }
}

pub mod context {
    use super::*;
    use crate::basic_block::BasicBlock;
    use crate::builder::Builder;
    use crate::module::Module;
    use crate::types::*;
    use crate::values::*;
    #[derive(Debug, PartialEq, Eq)]
    pub struct Context(pub(crate) Ref);
    impl Context {
        pub fn create() -> Self {
            Context(unsafe { LLVMContextCreate() })
        }
        pub fn create_module<'c>(&'c self, n: &str) -> Module<'c> {
            let n = cs(n);
            Module { m: unsafe { LLVMModuleCreateWithNameInContext(n.as_ptr(), self.0) }, p: PhantomData }
        }
        pub fn create_builder<'c>(&'c self) -> Builder<'c> {
            Builder { b: unsafe { LLVMCreateBuilderInContext(self.0) }, p: PhantomData }
        }
        pub fn append_basic_block<'c>(&'c self, f: FunctionValue<'c>, n: &str) -> BasicBlock<'c> {
            let n = cs(n);
            BasicBlock::mk(unsafe { LLVMAppendBasicBlockInContext(self.0, f.v, n.as_ptr()) })
        }
        pub fn prepend_basic_block<'c>(&'c self, b: BasicBlock<'c>, n: &str) -> BasicBlock<'c> {
            let n = cs(n);
            BasicBlock::mk(unsafe { LLVMInsertBasicBlockInContext(self.0, b.b, n.as_ptr()) })
        }
        pub fn custom_width_int_type(&self, n: u32) -> IntType<'_> {
            IntType::mk(unsafe { LLVMIntTypeInContext(self.0, n) })
        }
        pub fn bool_type(&self) -> IntType<'_> { self.custom_width_int_type(1) }
        pub fn i8_type(&self) -> IntType<'_> { self.custom_width_int_type(8) }
        pub fn i16_type(&self) -> IntType<'_> { self.custom_width_int_type(16) }
        pub fn i32_type(&self) -> IntType<'_> { self.custom_width_int_type(32) }
        pub fn i64_type(&self) -> IntType<'_> { self.custom_width_int_type(64) }
        pub fn i128_type(&self) -> IntType<'_> { self.custom_width_int_type(128) }
        pub fn void_type(&self) -> VoidType<'_> { VoidType::mk(unsafe { LLVMVoidTypeInContext(self.0) }) }
        pub fn ptr_type(&self, a: AddressSpace) -> PointerType<'_> {
            PointerType::mk(unsafe { LLVMPointerTypeInContext(self.0, a.0) })
        }
        pub fn const_string<'c>(&'c self, s: &[u8], null: bool) -> ArrayValue<'c> {
            ArrayValue::mk(unsafe { LLVMConstStringInContext(self.0, s.as_ptr() as _, s.len() as u32, !null as c_int) })
        }
        pub fn struct_type<'c>(&'c self, f: &[BasicTypeEnum<'c>], packed: bool) -> StructType<'c> {
            let mut v: Vec<Ref> = f.iter().map(|x| x.as_ref_()).collect();
            StructType::mk(unsafe { LLVMStructTypeInContext(self.0, v.as_mut_ptr(), v.len() as u32, packed as c_int) })
        }
        pub fn const_struct<'c>(&'c self, f: &[BasicValueEnum<'c>], packed: bool) -> StructValue<'c> {
            let mut v: Vec<Ref> = f.iter().map(|x| x.as_ref_()).collect();
            StructValue::mk(unsafe { LLVMConstStructInContext(self.0, v.as_mut_ptr(), v.len() as u32, packed as c_int) })
        }
    }
}

pub mod module {
    use super::*;
    use crate::context::Context;
    use crate::memory_buffer::MemoryBuffer;
    use crate::types::*;
    use crate::values::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Linkage {
        External = 0,
        AvailableExternally = 1,
        LinkOnceAny = 2,
        LinkOnceODR = 3,
        WeakAny = 5,
        WeakODR = 6,
        Appending = 7,
        Internal = 8,
        Private = 9,
        ExternalWeak = 12,
        Common = 14,
    }
    #[derive(Debug)]
    pub struct Module<'c> {
        pub(crate) m: Ref,
        pub(crate) p: PhantomData<&'c ()>,
    }
    impl<'c> Module<'c> {
        pub fn parse_bitcode_from_buffer(b: &MemoryBuffer, c: &'c Context) -> Result<Self, LLVMString> {
            let mut out: Ref = std::ptr::null_mut();
            let r = unsafe { LLVMParseBitcodeInContext2(c.0, b.0, &mut out) };
            if r != 0 {
                return Err(LLVMString("cannot parse bitcode".into()));
            }
            Ok(Module { m: out, p: PhantomData })
        }
        pub fn link_in_module(&self, o: Module<'c>) -> Result<(), LLVMString> {
            if unsafe { LLVMLinkModules2(self.m, o.m) } != 0 {
                return Err(LLVMString("cannot link modules".into()));
            }
            Ok(())
        }
        pub fn add_global<T: BasicType<'c>>(&self, t: T, a: Option<AddressSpace>, n: &str) -> GlobalValue<'c> {
            let n = cs(n);
            GlobalValue::mk(unsafe { LLVMAddGlobalInAddressSpace(self.m, t.as_basic_type_enum().as_ref_(), n.as_ptr(), a.map_or(0, |x| x.0)) })
        }
        pub fn get_global(&self, n: &str) -> Option<GlobalValue<'c>> {
            let n = cs(n);
            let r = unsafe { LLVMGetNamedGlobal(self.m, n.as_ptr()) };
            if r.is_null() { None } else { Some(GlobalValue::mk(r)) }
        }
        pub fn get_function(&self, n: &str) -> Option<FunctionValue<'c>> {
            let n = cs(n);
            let r = unsafe { LLVMGetNamedFunction(self.m, n.as_ptr()) };
            if r.is_null() { None } else { Some(FunctionValue::mk(r)) }
        }
        pub fn get_first_function(&self) -> Option<FunctionValue<'c>> {
            let r = unsafe { LLVMGetFirstFunction(self.m) };
            if r.is_null() { None } else { Some(FunctionValue::mk(r)) }
        }
        pub fn add_function(&self, n: &str, t: FunctionType<'c>, l: Option<Linkage>) -> FunctionValue<'c> {
            let n = cs(n);
            let f = unsafe { LLVMAddFunction(self.m, n.as_ptr(), t.t) };
            if let Some(l) = l {
                unsafe { LLVMSetLinkage(f, l as c_int) }
            }
            FunctionValue::mk(f)
        }
        pub fn print_to_file<P: AsRef<std::path::Path>>(&self, p: P) -> Result<(), LLVMString> {
            let n = cs(p.as_ref().to_str().unwrap_or(""));
            let mut e: *mut c_char = std::ptr::null_mut();
            if unsafe { LLVMPrintModuleToFile(self.m, n.as_ptr(), &mut e) } != 0 {
                return Err(LLVMString(unsafe { take(e) }));
            }
            Ok(())
        }
        pub fn print_to_string(&self) -> LLVMString {
            LLVMString(unsafe { take(LLVMPrintModuleToString(self.m)) })
        }
        pub fn verify(&self) -> Result<(), LLVMString> {
            let mut e: *mut c_char = std::ptr::null_mut();
            let r = unsafe { LLVMVerifyModule(self.m, 2, &mut e) };
            let s = unsafe { take(e) };
            if r != 0 { Err(LLVMString(s)) } else { Ok(()) }
        }
        pub fn set_triple(&self, t: &crate::targets::TargetTriple) {
            let n = cs(&t.0);
            unsafe { LLVMSetTarget(self.m, n.as_ptr()) }
        }
        pub fn set_source_file_name(&self, t: &str) {
            unsafe { LLVMSetSourceFileName(self.m, t.as_ptr() as _, t.len()) }
        }
    }
}

pub mod basic_block {
    use super::*;
    use crate::values::*;
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub struct BasicBlock<'c> {
        pub(crate) b: Ref,
        p: PhantomData<&'c ()>,
    }
    impl<'c> BasicBlock<'c> {
        pub(crate) fn mk(b: Ref) -> Self { BasicBlock { b, p: PhantomData } }
        pub fn get_terminator(self) -> Option<InstructionValue<'c>> { opt(unsafe { LLVMGetBasicBlockTerminator(self.b) }) }
        pub fn get_first_instruction(self) -> Option<InstructionValue<'c>> { opt(unsafe { LLVMGetFirstInstruction(self.b) }) }
        pub fn get_last_instruction(self) -> Option<InstructionValue<'c>> { opt(unsafe { LLVMGetLastInstruction(self.b) }) }
        pub fn get_parent(self) -> Option<FunctionValue<'c>> {
            let r = unsafe { LLVMGetBasicBlockParent(self.b) };
            if r.is_null() { None } else { Some(FunctionValue::mk(r)) }
        }
        pub fn get_name(&self) -> &CStr { unsafe { CStr::from_ptr(LLVMGetBasicBlockName(self.b)) } }
        pub fn move_after(self, o: BasicBlock<'c>) -> Result<(), ()> { unsafe { LLVMMoveBasicBlockAfter(self.b, o.b) }; Ok(()) }
        pub fn move_before(self, o: BasicBlock<'c>) -> Result<(), ()> { unsafe { LLVMMoveBasicBlockBefore(self.b, o.b) }; Ok(()) }
    }
    fn opt<'c>(r: Ref) -> Option<InstructionValue<'c>> {
        if r.is_null() { None } else { Some(InstructionValue::mk(r)) }
    }
}

pub mod types {
    use super::*;
    use crate::values::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum StringRadix {
        Binary = 2,
        Octal = 8,
        Decimal = 10,
        Hexadecimal = 16,
        Alphanumeric = 36,
    }
    pub trait AnyType<'c>: fmt::Debug {
        fn as_any_ref(&self) -> Ref;
        fn print_to_string(&self) -> LLVMString {
            LLVMString(unsafe { take(LLVMPrintTypeToString(self.as_any_ref())) })
        }
    }
    pub trait BasicType<'c>: AnyType<'c> {
        fn as_basic_type_enum(&self) -> BasicTypeEnum<'c>;
        fn fn_type(&self, p: &[BasicMetadataTypeEnum<'c>], va: bool) -> FunctionType<'c> {
            let mut v: Vec<Ref> = p.iter().map(|x| x.as_ref_()).collect();
            FunctionType::mk(unsafe { LLVMFunctionType(self.as_any_ref(), v.as_mut_ptr(), v.len() as u32, va as c_int) })
        }
        fn array_type(&self, n: u32) -> ArrayType<'c> {
            ArrayType::mk(unsafe { LLVMArrayType(self.as_any_ref(), n) })
        }
        fn ptr_type(&self, a: AddressSpace) -> PointerType<'c> {
            PointerType::mk(unsafe { LLVMPointerTypeInContext(LLVMGetTypeContext(self.as_any_ref()), a.0) })
        }
        fn is_sized(&self) -> bool {
            unsafe { LLVMTypeIsSized(self.as_any_ref()) != 0 }
        }
    }
    macro_rules! ty {
        ($($n:ident),*) => {$(
            #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
            pub struct $n<'c> { pub(crate) t: Ref, p: PhantomData<&'c ()> }
            impl<'c> $n<'c> {
                pub(crate) fn mk(t: Ref) -> Self { $n { t, p: PhantomData } }
                pub fn print_to_string(&self) -> LLVMString { LLVMString(unsafe { take(LLVMPrintTypeToString(self.t)) }) }
            }
            impl<'c> AnyType<'c> for $n<'c> { fn as_any_ref(&self) -> Ref { self.t } }
            impl<'c> fmt::Display for $n<'c> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.print_to_string()) }
            }
        )*};
    }
    ty!(IntType, ArrayType, PointerType, StructType, VoidType, FunctionType);
    macro_rules! basic {
        ($($n:ident $v:ident),*) => {$(
            impl<'c> BasicType<'c> for $n<'c> { fn as_basic_type_enum(&self) -> BasicTypeEnum<'c> { BasicTypeEnum::$n(*self) } }
            impl<'c> From<$n<'c>> for BasicTypeEnum<'c> { fn from(x: $n<'c>) -> Self { BasicTypeEnum::$n(x) } }
            impl<'c> From<$n<'c>> for BasicMetadataTypeEnum<'c> { fn from(x: $n<'c>) -> Self { BasicMetadataTypeEnum::$n(x) } }
            impl<'c> $n<'c> {
                pub fn fn_type(self, p: &[BasicMetadataTypeEnum<'c>], va: bool) -> FunctionType<'c> { BasicType::fn_type(&self, p, va) }
                pub fn array_type(self, n: u32) -> ArrayType<'c> { BasicType::array_type(&self, n) }
                pub fn ptr_type(self, a: AddressSpace) -> PointerType<'c> { BasicType::ptr_type(&self, a) }
                pub fn is_sized(self) -> bool { unsafe { LLVMTypeIsSized(self.t) != 0 } }
                pub fn const_zero(self) -> $v<'c> { $v::mk(unsafe { LLVMConstNull(self.t) }) }
                pub fn get_undef(self) -> $v<'c> { $v::mk(unsafe { LLVMGetUndef(self.t) }) }
                pub fn get_poison(self) -> $v<'c> { $v::mk(unsafe { LLVMGetPoison(self.t) }) }
            }
        )*};
    }
    basic!(IntType IntValue, ArrayType ArrayValue, PointerType PointerValue, StructType StructValue);
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub enum BasicTypeEnum<'c> {
        ArrayType(ArrayType<'c>),
        IntType(IntType<'c>),
        PointerType(PointerType<'c>),
        StructType(StructType<'c>),
    }
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub enum BasicMetadataTypeEnum<'c> {
        ArrayType(ArrayType<'c>),
        IntType(IntType<'c>),
        PointerType(PointerType<'c>),
        StructType(StructType<'c>),
    }
    impl<'c> From<BasicTypeEnum<'c>> for BasicMetadataTypeEnum<'c> {
        fn from(x: BasicTypeEnum<'c>) -> Self {
            match x {
                BasicTypeEnum::ArrayType(t) => Self::ArrayType(t),
                BasicTypeEnum::IntType(t) => Self::IntType(t),
                BasicTypeEnum::PointerType(t) => Self::PointerType(t),
                BasicTypeEnum::StructType(t) => Self::StructType(t),
            }
        }
    }
    macro_rules! tyenum {
        ($e:ident) => {
            impl<'c> $e<'c> {
                pub(crate) fn as_ref_(&self) -> Ref {
                    match self { $e::ArrayType(t) => t.t, $e::IntType(t) => t.t, $e::PointerType(t) => t.t, $e::StructType(t) => t.t }
                }
                pub fn is_int_type(self) -> bool { matches!(self, $e::IntType(_)) }
                pub fn is_array_type(self) -> bool { matches!(self, $e::ArrayType(_)) }
                pub fn is_pointer_type(self) -> bool { matches!(self, $e::PointerType(_)) }
                pub fn is_struct_type(self) -> bool { matches!(self, $e::StructType(_)) }
                pub fn into_int_type(self) -> IntType<'c> { if let $e::IntType(t) = self { t } else { panic!("Found {:?} but expected the IntType variant", self) } }
                pub fn into_array_type(self) -> ArrayType<'c> { if let $e::ArrayType(t) = self { t } else { panic!("Found {:?} but expected the ArrayType variant", self) } }
                pub fn into_pointer_type(self) -> PointerType<'c> { if let $e::PointerType(t) = self { t } else { panic!("Found {:?} but expected the PointerType variant", self) } }
                pub fn into_struct_type(self) -> StructType<'c> { if let $e::StructType(t) = self { t } else { panic!("Found {:?} but expected the StructType variant", self) } }
            }
            impl<'c> AnyType<'c> for $e<'c> { fn as_any_ref(&self) -> Ref { self.as_ref_() } }
            impl<'c> fmt::Display for $e<'c> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", unsafe { take(LLVMPrintTypeToString(self.as_ref_())) }) }
            }
        };
    }
    tyenum!(BasicTypeEnum);
    tyenum!(BasicMetadataTypeEnum);
    impl<'c> BasicTypeEnum<'c> {
        pub(crate) fn mk(t: Ref) -> Self {
            match unsafe { LLVMGetTypeKind(t) } {
                8 => BasicTypeEnum::IntType(IntType::mk(t)),
                10 => BasicTypeEnum::StructType(StructType::mk(t)),
                11 => BasicTypeEnum::ArrayType(ArrayType::mk(t)),
                12 => BasicTypeEnum::PointerType(PointerType::mk(t)),
                k => panic!("type kind {k} not supported"),
            }
        }
        pub fn const_zero(self) -> BasicValueEnum<'c> { BasicValueEnum::mk(unsafe { LLVMConstNull(self.as_ref_()) }) }
    }
    impl<'c> BasicType<'c> for BasicTypeEnum<'c> {
        fn as_basic_type_enum(&self) -> BasicTypeEnum<'c> { *self }
    }
    impl<'c> IntType<'c> {
        pub fn const_int(self, v: u64, sx: bool) -> IntValue<'c> { IntValue::mk(unsafe { LLVMConstInt(self.t, v, sx as c_int) }) }
        pub fn const_all_ones(self) -> IntValue<'c> { IntValue::mk(unsafe { LLVMConstAllOnes(self.t) }) }
        pub fn const_int_arbitrary_precision(self, w: &[u64]) -> IntValue<'c> {
            IntValue::mk(unsafe { LLVMConstIntOfArbitraryPrecision(self.t, w.len() as u32, w.as_ptr()) })
        }
        pub fn const_int_from_string(self, s: &str, r: StringRadix) -> Option<IntValue<'c>> {
            let digits = s.strip_prefix(['-', '+']).unwrap_or(s);
            let radix = r as u32;
            if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
                return None;
            }
            Some(IntValue::mk(unsafe { LLVMConstIntOfStringAndSize(self.t, s.as_ptr() as _, s.len() as u32, radix as u8) }))
        }
        pub fn get_bit_width(self) -> u32 { unsafe { LLVMGetIntTypeWidth(self.t) } }
        pub fn const_array(self, v: &[IntValue<'c>]) -> ArrayValue<'c> {
            let mut a: Vec<Ref> = v.iter().map(|x| x.v).collect();
            ArrayValue::mk(unsafe { LLVMConstArray(self.t, a.as_mut_ptr(), a.len() as u32) })
        }
    }
    impl<'c> ArrayType<'c> {
        pub fn len(self) -> u32 { unsafe { LLVMGetArrayLength(self.t) } }
        pub fn get_element_type(self) -> BasicTypeEnum<'c> { BasicTypeEnum::mk(unsafe { LLVMGetElementType(self.t) }) }
    }
    impl<'c> PointerType<'c> {
        pub fn const_null(self) -> PointerValue<'c> { PointerValue::mk(unsafe { LLVMConstNull(self.t) }) }
    }
    impl<'c> StructType<'c> {
        pub fn count_fields(self) -> u32 { unsafe { LLVMCountStructElementTypes(self.t) } }
        pub fn get_field_type_at_index(self, i: u32) -> Option<BasicTypeEnum<'c>> {
            if i >= self.count_fields() { None } else { Some(BasicTypeEnum::mk(unsafe { LLVMStructGetTypeAtIndex(self.t, i) })) }
        }
        pub fn get_field_types(self) -> Vec<BasicTypeEnum<'c>> { (0..self.count_fields()).map(|i| self.get_field_type_at_index(i).unwrap()).collect() }
    }
    impl<'c> VoidType<'c> {
        pub fn fn_type(self, p: &[BasicMetadataTypeEnum<'c>], va: bool) -> FunctionType<'c> {
            let mut v: Vec<Ref> = p.iter().map(|x| x.as_ref_()).collect();
            FunctionType::mk(unsafe { LLVMFunctionType(self.t, v.as_mut_ptr(), v.len() as u32, va as c_int) })
        }
    }
    impl<'c> FunctionType<'c> {
        pub fn get_return_type(self) -> Option<BasicTypeEnum<'c>> {
            let r = unsafe { LLVMGetReturnType(self.t) };
            if unsafe { LLVMGetTypeKind(r) } == 0 { None } else { Some(BasicTypeEnum::mk(r)) }
        }
        pub fn count_param_types(self) -> u32 { unsafe { LLVMCountParamTypes(self.t) } }
        pub fn get_param_types(self) -> Vec<BasicTypeEnum<'c>> {
            let n = self.count_param_types() as usize;
            let mut v: Vec<Ref> = vec![std::ptr::null_mut(); n];
            unsafe { LLVMGetParamTypes(self.t, v.as_mut_ptr()) };
            v.into_iter().map(BasicTypeEnum::mk).collect()
        }
    }
}

pub mod values {
    use super::*;
    use crate::basic_block::BasicBlock;
    use crate::module::Linkage;
    use crate::types::*;
    pub trait AnyValue<'c>: fmt::Debug {
        fn as_any_ref(&self) -> Ref;
        fn print_to_string(&self) -> LLVMString { LLVMString(unsafe { take(LLVMPrintValueToString(self.as_any_ref())) }) }
    }
    pub trait BasicValue<'c>: AnyValue<'c> {
        fn as_basic_value_enum(&self) -> BasicValueEnum<'c> { BasicValueEnum::mk(self.as_any_ref()) }
        fn as_instruction_value(&self) -> Option<InstructionValue<'c>> { Some(InstructionValue::mk(self.as_any_ref())) }
        fn set_name(&self, n: &str) { unsafe { LLVMSetValueName2(self.as_any_ref(), n.as_ptr() as _, n.len()) } }
    }
    macro_rules! val {
        ($($n:ident),*) => {$(
            #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
            pub struct $n<'c> { pub(crate) v: Ref, p: PhantomData<&'c ()> }
            impl<'c> $n<'c> {
                pub(crate) fn mk(v: Ref) -> Self { $n { v, p: PhantomData } }
                pub fn is_const(self) -> bool { unsafe { LLVMIsConstant(self.v) != 0 } }
                pub fn is_undef(self) -> bool { unsafe { LLVMIsUndef(self.v) != 0 } }
                pub fn is_null(self) -> bool { unsafe { LLVMIsNull(self.v) != 0 } }
                pub fn print_to_string(self) -> LLVMString { LLVMString(unsafe { take(LLVMPrintValueToString(self.v)) }) }
                pub fn set_name(&self, n: &str) { unsafe { LLVMSetValueName2(self.v, n.as_ptr() as _, n.len()) } }
                pub fn get_name(&self) -> &CStr { let mut n = 0usize; unsafe { CStr::from_ptr(LLVMGetValueName2(self.v, &mut n)) } }
            }
            impl<'c> AnyValue<'c> for $n<'c> { fn as_any_ref(&self) -> Ref { self.v } }
            impl<'c> fmt::Display for $n<'c> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.print_to_string()) }
            }
        )*};
    }
    val!(IntValue, ArrayValue, PointerValue, StructValue, FunctionValue, GlobalValue, InstructionValue, CallSiteValue, PhiValue);
    macro_rules! basicv {
        ($($n:ident $t:ident),*) => {$(
            impl<'c> BasicValue<'c> for $n<'c> {}
            impl<'c> From<$n<'c>> for BasicValueEnum<'c> { fn from(x: $n<'c>) -> Self { BasicValueEnum::$n(x) } }
            impl<'c> From<$n<'c>> for BasicMetadataValueEnum<'c> { fn from(x: $n<'c>) -> Self { BasicMetadataValueEnum::$n(x) } }
            impl<'c> $n<'c> {
                pub fn get_type(self) -> $t<'c> { $t::mk(unsafe { LLVMTypeOf(self.v) }) }
                pub fn as_instruction(self) -> Option<InstructionValue<'c>> { Some(InstructionValue::mk(self.v)) }
            }
            impl<'c> TryFrom<BasicValueEnum<'c>> for $n<'c> {
                type Error = ();
                fn try_from(x: BasicValueEnum<'c>) -> Result<Self, ()> { if let BasicValueEnum::$n(v) = x { Ok(v) } else { Err(()) } }
            }
        )*};
    }
    basicv!(IntValue IntType, ArrayValue ArrayType, PointerValue PointerType, StructValue StructType);
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub enum BasicValueEnum<'c> {
        ArrayValue(ArrayValue<'c>),
        IntValue(IntValue<'c>),
        PointerValue(PointerValue<'c>),
        StructValue(StructValue<'c>),
    }
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub enum BasicMetadataValueEnum<'c> {
        ArrayValue(ArrayValue<'c>),
        IntValue(IntValue<'c>),
        PointerValue(PointerValue<'c>),
        StructValue(StructValue<'c>),
    }
    macro_rules! valenum {
        ($e:ident) => {
            impl<'c> $e<'c> {
                pub(crate) fn as_ref_(&self) -> Ref {
                    match self { $e::ArrayValue(t) => t.v, $e::IntValue(t) => t.v, $e::PointerValue(t) => t.v, $e::StructValue(t) => t.v }
                }
                pub fn is_int_value(self) -> bool { matches!(self, $e::IntValue(_)) }
                pub fn is_array_value(self) -> bool { matches!(self, $e::ArrayValue(_)) }
                pub fn is_pointer_value(self) -> bool { matches!(self, $e::PointerValue(_)) }
                pub fn is_struct_value(self) -> bool { matches!(self, $e::StructValue(_)) }
                pub fn into_int_value(self) -> IntValue<'c> { if let $e::IntValue(t) = self { t } else { panic!("Found {:?} but expected the IntValue variant", self) } }
                pub fn into_array_value(self) -> ArrayValue<'c> { if let $e::ArrayValue(t) = self { t } else { panic!("Found {:?} but expected the ArrayValue variant", self) } }
                pub fn into_pointer_value(self) -> PointerValue<'c> { if let $e::PointerValue(t) = self { t } else { panic!("Found {:?} but expected the PointerValue variant", self) } }
                pub fn into_struct_value(self) -> StructValue<'c> { if let $e::StructValue(t) = self { t } else { panic!("Found {:?} but expected the StructValue variant", self) } }
            }
            impl<'c> AnyValue<'c> for $e<'c> { fn as_any_ref(&self) -> Ref { self.as_ref_() } }
            impl<'c> fmt::Display for $e<'c> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", unsafe { take(LLVMPrintValueToString(self.as_ref_())) }) }
            }
        };
    }
    valenum!(BasicValueEnum);
    valenum!(BasicMetadataValueEnum);
    impl<'c> BasicValue<'c> for BasicValueEnum<'c> {
        fn as_basic_value_enum(&self) -> BasicValueEnum<'c> { *self }
    }
    impl<'c> BasicValueEnum<'c> {
        pub(crate) fn mk(v: Ref) -> Self {
            match BasicTypeEnum::mk(unsafe { LLVMTypeOf(v) }) {
                BasicTypeEnum::IntType(_) => BasicValueEnum::IntValue(IntValue::mk(v)),
                BasicTypeEnum::ArrayType(_) => BasicValueEnum::ArrayValue(ArrayValue::mk(v)),
                BasicTypeEnum::PointerType(_) => BasicValueEnum::PointerValue(PointerValue::mk(v)),
                BasicTypeEnum::StructType(_) => BasicValueEnum::StructValue(StructValue::mk(v)),
            }
        }
        pub fn get_type(&self) -> BasicTypeEnum<'c> { BasicTypeEnum::mk(unsafe { LLVMTypeOf(self.as_ref_()) }) }
        pub fn set_name(&self, n: &str) { unsafe { LLVMSetValueName2(self.as_ref_(), n.as_ptr() as _, n.len()) } }
    }
    impl<'c> From<BasicValueEnum<'c>> for BasicMetadataValueEnum<'c> {
        fn from(x: BasicValueEnum<'c>) -> Self {
            match x {
                BasicValueEnum::ArrayValue(t) => Self::ArrayValue(t),
                BasicValueEnum::IntValue(t) => Self::IntValue(t),
                BasicValueEnum::PointerValue(t) => Self::PointerValue(t),
                BasicValueEnum::StructValue(t) => Self::StructValue(t),
            }
        }
    }
    impl<'c> IntValue<'c> {
        pub fn get_zero_extended_constant(self) -> Option<u64> {
            if unsafe { LLVMIsAConstantInt(self.v) }.is_null() || self.get_type().get_bit_width() > 64 { return None; }
            Some(unsafe { LLVMConstIntGetZExtValue(self.v) })
        }
        pub fn get_sign_extended_constant(self) -> Option<i64> {
            if unsafe { LLVMIsAConstantInt(self.v) }.is_null() || self.get_type().get_bit_width() > 64 { return None; }
            Some(unsafe { LLVMConstIntGetSExtValue(self.v) })
        }
        pub fn is_constant_int(self) -> bool { !unsafe { LLVMIsAConstantInt(self.v) }.is_null() }
    }
    impl<'c> FunctionValue<'c> {
        pub fn get_nth_param(self, i: u32) -> Option<BasicValueEnum<'c>> {
            if i >= self.count_params() { None } else { Some(BasicValueEnum::mk(unsafe { LLVMGetParam(self.v, i) })) }
        }
        pub fn get_first_param(self) -> Option<BasicValueEnum<'c>> { self.get_nth_param(0) }
        pub fn count_params(self) -> u32 { unsafe { LLVMCountParams(self.v) } }
        pub fn get_params(self) -> Vec<BasicValueEnum<'c>> { (0..self.count_params()).map(|i| self.get_nth_param(i).unwrap()).collect() }
        pub fn get_param_iter(self) -> std::vec::IntoIter<BasicValueEnum<'c>> { self.get_params().into_iter() }
        pub fn get_type(self) -> FunctionType<'c> { FunctionType::mk(unsafe { LLVMGlobalGetValueType(self.v) }) }
        pub fn count_basic_blocks(self) -> u32 { unsafe { LLVMCountBasicBlocks(self.v) } }
        pub fn get_first_basic_block(self) -> Option<BasicBlock<'c>> { bb(unsafe { LLVMGetFirstBasicBlock(self.v) }) }
        pub fn get_last_basic_block(self) -> Option<BasicBlock<'c>> { bb(unsafe { LLVMGetLastBasicBlock(self.v) }) }
        pub fn get_next_function(self) -> Option<FunctionValue<'c>> { let r = unsafe { LLVMGetNextFunction(self.v) }; if r.is_null() { None } else { Some(FunctionValue::mk(r)) } }
        pub fn set_linkage(self, l: Linkage) { unsafe { LLVMSetLinkage(self.v, l as c_int) } }
        pub fn verify(self, print: bool) -> bool { unsafe { LLVMVerifyFunction(self.v, if print { 1 } else { 2 }) == 0 } }
        pub unsafe fn delete(self) { LLVMDeleteFunction(self.v) }
        pub fn as_global_value(self) -> GlobalValue<'c> { GlobalValue::mk(self.v) }
    }
    fn bb<'c>(r: Ref) -> Option<BasicBlock<'c>> {
        if r.is_null() { None } else { Some(BasicBlock::mk(r)) }
    }
    impl<'c> GlobalValue<'c> {
        pub fn set_initializer(self, v: &dyn BasicValue<'c>) { unsafe { LLVMSetInitializer(self.v, v.as_any_ref()) } }
        pub fn get_initializer(self) -> Option<BasicValueEnum<'c>> { let r = unsafe { LLVMGetInitializer(self.v) }; if r.is_null() { None } else { Some(BasicValueEnum::mk(r)) } }
        pub fn as_pointer_value(self) -> PointerValue<'c> { PointerValue::mk(self.v) }
        pub fn set_constant(self, c: bool) { unsafe { LLVMSetGlobalConstant(self.v, c as c_int) } }
        pub fn set_linkage(self, l: Linkage) { unsafe { LLVMSetLinkage(self.v, l as c_int) } }
        pub fn set_alignment(self, a: u32) { unsafe { LLVMSetAlignment(self.v, a) } }
    }
    impl<'c> InstructionValue<'c> {
        pub fn get_parent(self) -> Option<BasicBlock<'c>> { bb(unsafe { LLVMGetInstructionParent(self.v) }) }
        pub fn get_next_instruction(self) -> Option<InstructionValue<'c>> { let r = unsafe { LLVMGetNextInstruction(self.v) }; if r.is_null() { None } else { Some(InstructionValue::mk(r)) } }
        pub fn erase_from_basic_block(self) { unsafe { LLVMInstructionEraseFromParent(self.v) } }
        pub fn set_alignment(self, a: u32) -> Result<(), &'static str> { unsafe { LLVMSetAlignment(self.v, a) }; Ok(()) }
        pub fn set_volatile(self, a: bool) -> Result<(), &'static str> { unsafe { LLVMSetVolatile(self.v, a as c_int) }; Ok(()) }
    }
    impl<'c> CallSiteValue<'c> {
        pub fn try_as_basic_value(self) -> either::Either<BasicValueEnum<'c>, InstructionValue<'c>> {
            let t = unsafe { LLVMTypeOf(self.v) };
            if unsafe { LLVMGetTypeKind(t) } == 0 { either::Right(InstructionValue::mk(self.v)) } else { either::Left(BasicValueEnum::mk(self.v)) }
        }
    }
    impl<'c> PhiValue<'c> {
        pub fn add_incoming(self, inc: &[(&dyn BasicValue<'c>, BasicBlock<'c>)]) {
            for (v, b) in inc {
                let (mut v, mut b) = (v.as_any_ref(), b.b);
                unsafe { LLVMAddIncoming(self.v, &mut v, &mut b, 1) }
            }
        }
        pub fn as_basic_value(self) -> BasicValueEnum<'c> { BasicValueEnum::mk(self.v) }
    }
}

pub mod builder {
    use super::*;
    use crate::basic_block::BasicBlock;
    use crate::types::*;
    use crate::values::*;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum BuilderError {
        UnsetPosition,
        AlignmentError(&'static str),
        ExtractOutOfRange,
        BitwidthError(&'static str),
        PointeeTypeMismatch(&'static str),
        ValueTypeMismatch(&'static str),
        OrderingError(&'static str),
        GEPPointee,
        GEPIndex,
    }
    impl fmt::Display for BuilderError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Builder error: {:?}", self) }
    }
    impl std::error::Error for BuilderError {}
    type R<T> = Result<T, BuilderError>;
    #[derive(Debug)]
    pub struct Builder<'c> {
        pub(crate) b: Ref,
        pub(crate) p: PhantomData<&'c ()>,
    }
    macro_rules! bin {
        ($($n:ident $f:ident),*) => {$(
            pub fn $n(&self, l: IntValue<'c>, r: IntValue<'c>, n: &str) -> R<IntValue<'c>> {
                self.pos()?;
                let n = cs(n);
                Ok(IntValue::mk(unsafe { $f(self.b, l.v, r.v, n.as_ptr()) }))
            }
        )*};
    }
    macro_rules! cast {
        ($($n:ident $f:ident),*) => {$(
            pub fn $n(&self, v: IntValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> {
                self.pos()?;
                let n = cs(n);
                Ok(IntValue::mk(unsafe { $f(self.b, v.v, t.t, n.as_ptr()) }))
            }
        )*};
    }
    impl<'c> Builder<'c> {
        fn pos(&self) -> R<()> {
            if unsafe { LLVMGetInsertBlock(self.b) }.is_null() { Err(BuilderError::UnsetPosition) } else { Ok(()) }
        }
        pub fn position_at_end(&self, b: BasicBlock<'c>) { unsafe { LLVMPositionBuilderAtEnd(self.b, b.b) } }
        pub fn position_before(&self, i: &InstructionValue<'c>) { unsafe { LLVMPositionBuilderBefore(self.b, i.v) } }
        pub fn get_insert_block(&self) -> Option<BasicBlock<'c>> {
            let r = unsafe { LLVMGetInsertBlock(self.b) };
            if r.is_null() { None } else { Some(BasicBlock::mk(r)) }
        }
        pub fn build_call(&self, f: FunctionValue<'c>, a: &[BasicMetadataValueEnum<'c>], n: &str) -> R<CallSiteValue<'c>> {
            self.pos()?;
            let n = cs(n);
            let mut v: Vec<Ref> = a.iter().map(|x| x.as_ref_()).collect();
            Ok(CallSiteValue::mk(unsafe { LLVMBuildCall2(self.b, f.get_type().t, f.v, v.as_mut_ptr(), v.len() as u32, n.as_ptr()) }))
        }
        pub fn build_direct_call(&self, f: FunctionValue<'c>, a: &[BasicMetadataValueEnum<'c>], n: &str) -> R<CallSiteValue<'c>> { self.build_call(f, a, n) }
        pub fn build_load<T: BasicType<'c>>(&self, t: T, p: PointerValue<'c>, n: &str) -> R<BasicValueEnum<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(BasicValueEnum::mk(unsafe { LLVMBuildLoad2(self.b, t.as_any_ref(), p.v, n.as_ptr()) }))
        }
        pub fn build_store<V: BasicValue<'c>>(&self, p: PointerValue<'c>, v: V) -> R<InstructionValue<'c>> {
            self.pos()?;
            Ok(InstructionValue::mk(unsafe { LLVMBuildStore(self.b, v.as_any_ref(), p.v) }))
        }
        pub fn build_alloca<T: BasicType<'c>>(&self, t: T, n: &str) -> R<PointerValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(PointerValue::mk(unsafe { LLVMBuildAlloca(self.b, t.as_any_ref(), n.as_ptr()) }))
        }
        pub fn build_array_alloca<T: BasicType<'c>>(&self, t: T, s: IntValue<'c>, n: &str) -> R<PointerValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(PointerValue::mk(unsafe { LLVMBuildArrayAlloca(self.b, t.as_any_ref(), s.v, n.as_ptr()) }))
        }
        pub fn build_unconditional_branch(&self, d: BasicBlock<'c>) -> R<InstructionValue<'c>> {
            self.pos()?;
            Ok(InstructionValue::mk(unsafe { LLVMBuildBr(self.b, d.b) }))
        }
        pub fn build_conditional_branch(&self, c: IntValue<'c>, t: BasicBlock<'c>, e: BasicBlock<'c>) -> R<InstructionValue<'c>> {
            self.pos()?;
            Ok(InstructionValue::mk(unsafe { LLVMBuildCondBr(self.b, c.v, t.b, e.b) }))
        }
        pub fn build_return(&self, v: Option<&dyn BasicValue<'c>>) -> R<InstructionValue<'c>> {
            self.pos()?;
            Ok(InstructionValue::mk(match v {
                None => unsafe { LLVMBuildRetVoid(self.b) },
                Some(v) => unsafe { LLVMBuildRet(self.b, v.as_any_ref()) },
            }))
        }
        pub fn build_unreachable(&self) -> R<InstructionValue<'c>> {
            self.pos()?;
            Ok(InstructionValue::mk(unsafe { LLVMBuildUnreachable(self.b) }))
        }
        pub fn build_int_compare(&self, p: IntPredicate, l: IntValue<'c>, r: IntValue<'c>, n: &str) -> R<IntValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(IntValue::mk(unsafe { LLVMBuildICmp(self.b, p as c_int, l.v, r.v, n.as_ptr()) }))
        }
        pub fn build_struct_gep<T: BasicType<'c>>(&self, t: T, p: PointerValue<'c>, i: u32, n: &str) -> R<PointerValue<'c>> {
            self.pos()?;
            match t.as_basic_type_enum() {
                BasicTypeEnum::StructType(s) => {
                    if i >= s.count_fields() {
                        return Err(BuilderError::GEPIndex);
                    }
                }
                _ => return Err(BuilderError::GEPPointee),
            }
            let n = cs(n);
            Ok(PointerValue::mk(unsafe { LLVMBuildStructGEP2(self.b, t.as_any_ref(), p.v, i, n.as_ptr()) }))
        }
        pub unsafe fn build_gep<T: BasicType<'c>>(&self, t: T, p: PointerValue<'c>, i: &[IntValue<'c>], n: &str) -> R<PointerValue<'c>> {
            self.pos()?;
            let n = cs(n);
            let mut v: Vec<Ref> = i.iter().map(|x| x.v).collect();
            Ok(PointerValue::mk(LLVMBuildGEP2(self.b, t.as_any_ref(), p.v, v.as_mut_ptr(), v.len() as u32, n.as_ptr())))
        }
        pub unsafe fn build_in_bounds_gep<T: BasicType<'c>>(&self, t: T, p: PointerValue<'c>, i: &[IntValue<'c>], n: &str) -> R<PointerValue<'c>> {
            self.pos()?;
            let n = cs(n);
            let mut v: Vec<Ref> = i.iter().map(|x| x.v).collect();
            Ok(PointerValue::mk(LLVMBuildInBoundsGEP2(self.b, t.as_any_ref(), p.v, v.as_mut_ptr(), v.len() as u32, n.as_ptr())))
        }
        bin!(build_int_add LLVMBuildAdd, build_int_sub LLVMBuildSub, build_int_mul LLVMBuildMul, build_int_unsigned_div LLVMBuildUDiv,
             build_int_signed_div LLVMBuildSDiv, build_int_unsigned_rem LLVMBuildURem, build_int_signed_rem LLVMBuildSRem,
             build_left_shift LLVMBuildShl, build_and LLVMBuildAnd, build_or LLVMBuildOr, build_xor LLVMBuildXor);
        pub fn build_right_shift(&self, l: IntValue<'c>, r: IntValue<'c>, signed: bool, n: &str) -> R<IntValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(IntValue::mk(unsafe { if signed { LLVMBuildAShr(self.b, l.v, r.v, n.as_ptr()) } else { LLVMBuildLShr(self.b, l.v, r.v, n.as_ptr()) } }))
        }
        pub fn build_not(&self, v: IntValue<'c>, n: &str) -> R<IntValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(IntValue::mk(unsafe { LLVMBuildNot(self.b, v.v, n.as_ptr()) }))
        }
        pub fn build_int_neg(&self, v: IntValue<'c>, n: &str) -> R<IntValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(IntValue::mk(unsafe { LLVMBuildNeg(self.b, v.v, n.as_ptr()) }))
        }
        cast!(build_int_z_extend LLVMBuildZExt, build_int_s_extend LLVMBuildSExt, build_int_truncate LLVMBuildTrunc);
        pub fn build_int_cast(&self, v: IntValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> { self.build_int_cast_sign_flag(v, t, true, n) }
        pub fn build_int_cast_sign_flag(&self, v: IntValue<'c>, t: IntType<'c>, signed: bool, n: &str) -> R<IntValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(IntValue::mk(unsafe { LLVMBuildIntCast2(self.b, v.v, t.t, signed as c_int, n.as_ptr()) }))
        }
        pub fn build_int_z_extend_or_bit_cast(&self, v: IntValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> {
            if v.get_type() == t { Ok(v) } else { self.build_int_z_extend(v, t, n) }
        }
        pub fn build_ptr_to_int(&self, v: PointerValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(IntValue::mk(unsafe { LLVMBuildPtrToInt(self.b, v.v, t.t, n.as_ptr()) }))
        }
        pub fn build_int_to_ptr(&self, v: IntValue<'c>, t: PointerType<'c>, n: &str) -> R<PointerValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(PointerValue::mk(unsafe { LLVMBuildIntToPtr(self.b, v.v, t.t, n.as_ptr()) }))
        }
        pub fn build_bit_cast<V: BasicValue<'c>, T: BasicType<'c>>(&self, v: V, t: T, n: &str) -> R<BasicValueEnum<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(BasicValueEnum::mk(unsafe { LLVMBuildBitCast(self.b, v.as_any_ref(), t.as_any_ref(), n.as_ptr()) }))
        }
        pub fn build_pointer_cast(&self, v: PointerValue<'c>, t: PointerType<'c>, n: &str) -> R<PointerValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(PointerValue::mk(unsafe { LLVMBuildPointerCast(self.b, v.v, t.t, n.as_ptr()) }))
        }
        pub fn build_switch(&self, v: IntValue<'c>, e: BasicBlock<'c>, cases: &[(IntValue<'c>, BasicBlock<'c>)]) -> R<InstructionValue<'c>> {
            self.pos()?;
            let s = unsafe { LLVMBuildSwitch(self.b, v.v, e.b, cases.len() as u32) };
            for (c, b) in cases {
                unsafe { LLVMAddCase(s, c.v, b.b) }
            }
            Ok(InstructionValue::mk(s))
        }
        pub fn build_select<V: BasicValue<'c>>(&self, c: IntValue<'c>, t: V, e: V, n: &str) -> R<BasicValueEnum<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(BasicValueEnum::mk(unsafe { LLVMBuildSelect(self.b, c.v, t.as_any_ref(), e.as_any_ref(), n.as_ptr()) }))
        }
        pub fn build_phi<T: BasicType<'c>>(&self, t: T, n: &str) -> R<PhiValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(PhiValue::mk(unsafe { LLVMBuildPhi(self.b, t.as_any_ref(), n.as_ptr()) }))
        }
        pub fn build_extract_value(&self, v: StructValue<'c>, i: u32, n: &str) -> R<BasicValueEnum<'c>> {
            self.pos()?;
            if i >= v.get_type().count_fields() {
                return Err(BuilderError::ExtractOutOfRange);
            }
            let n = cs(n);
            Ok(BasicValueEnum::mk(unsafe { LLVMBuildExtractValue(self.b, v.v, i, n.as_ptr()) }))
        }
        pub fn build_insert_value<V: BasicValue<'c>>(&self, a: StructValue<'c>, v: V, i: u32, n: &str) -> R<StructValue<'c>> {
            self.pos()?;
            let n = cs(n);
            Ok(StructValue::mk(unsafe { LLVMBuildInsertValue(self.b, a.v, v.as_any_ref(), i, n.as_ptr()) }))
        }
        pub fn build_memcpy(&self, d: PointerValue<'c>, da: u32, s: PointerValue<'c>, sa: u32, n: IntValue<'c>) -> R<PointerValue<'c>> {
            self.pos()?;
            Ok(PointerValue::mk(unsafe { LLVMBuildMemCpy(self.b, d.v, da, s.v, sa, n.v) }))
        }
        pub fn build_memset(&self, d: PointerValue<'c>, da: u32, v: IntValue<'c>, n: IntValue<'c>) -> R<PointerValue<'c>> {
            self.pos()?;
            Ok(PointerValue::mk(unsafe { LLVMBuildMemSet(self.b, d.v, v.v, n.v, da) }))
        }
    }
    impl Drop for Builder<'_> {
        fn drop(&mut self) { unsafe { LLVMDisposeBuilder(self.b) } }
    }
}

pub mod passes {
    use super::*;
    use crate::module::Module;
    #[derive(Debug)]
    pub struct PassManager<T> {
        p: Ref,
        t: PhantomData<T>,
    }
    #[derive(Debug)]
    pub struct PassManagerBuilder {
        b: Ref,
    }
    macro_rules! passes {
        ($($n:ident $f:ident),* $(,)?) => {
            extern "C" { $(fn $f(p: Ref);)* }
            impl<T> PassManager<T> { $(pub fn $n(&self) { unsafe { $f(self.p) } })* }
        };
    }
    passes!(
        add_always_inliner_pass LLVMAddAlwaysInlinerPass,
        add_loop_unroll_and_jam_pass LLVMAddLoopUnrollAndJamPass,
        add_loop_unroll_pass LLVMAddLoopUnrollPass,
        add_loop_rotate_pass LLVMAddLoopRotatePass,
        add_loop_vectorize_pass LLVMAddLoopVectorizePass,
        add_loop_idiom_pass LLVMAddLoopIdiomPass,
        add_loop_deletion_pass LLVMAddLoopDeletionPass,
        add_loop_reroll_pass LLVMAddLoopRerollPass,
        add_aggressive_dce_pass LLVMAddAggressiveDCEPass,
        add_promote_memory_to_register_pass LLVMAddPromoteMemoryToRegisterPass,
        add_merged_load_store_motion_pass LLVMAddMergedLoadStoreMotionPass,
        add_demote_memory_to_register_pass LLVMAddDemoteMemoryToRegisterPass,
        add_memcpy_optimize_pass LLVMAddMemCpyOptPass,
        add_licm_pass LLVMAddLICMPass,
        add_gvn_pass LLVMAddGVNPass,
        add_new_gvn_pass LLVMAddNewGVNPass,
        add_sccp_pass LLVMAddSCCPPass,
        add_ipsccp_pass LLVMAddIPSCCPPass,
        add_instruction_combining_pass LLVMAddInstructionCombiningPass,
        add_instruction_simplify_pass LLVMAddInstructionSimplifyPass,
        add_jump_threading_pass LLVMAddJumpThreadingPass,
        add_cfg_simplification_pass LLVMAddCFGSimplificationPass,
        add_tail_call_elimination_pass LLVMAddTailCallEliminationPass,
        add_reassociate_pass LLVMAddReassociatePass,
        add_early_cse_pass LLVMAddEarlyCSEPass,
        add_early_cse_mem_ssa_pass LLVMAddEarlyCSEMemSSAPass,
        add_correlated_value_propagation_pass LLVMAddCorrelatedValuePropagationPass,
        add_dead_store_elimination_pass LLVMAddDeadStoreEliminationPass,
        add_ind_var_simplify_pass LLVMAddIndVarSimplifyPass,
        add_lower_expect_intrinsic_pass LLVMAddLowerExpectIntrinsicPass,
        add_merge_functions_pass LLVMAddMergeFunctionsPass,
        add_strip_dead_prototypes_pass LLVMAddStripDeadPrototypesPass,
        add_strip_symbol_pass LLVMAddStripSymbolsPass,
        add_scalarizer_pass LLVMAddScalarizerPass,
        add_function_inlining_pass LLVMAddFunctionInliningPass,
        add_function_attrs_pass LLVMAddFunctionAttrsPass,
        add_global_dce_pass LLVMAddGlobalDCEPass,
        add_global_optimizer_pass LLVMAddGlobalOptimizerPass,
        add_constant_merge_pass LLVMAddConstantMergePass,
        add_dead_arg_elimination_pass LLVMAddDeadArgEliminationPass,
        add_bit_tracking_dce_pass LLVMAddBitTrackingDCEPass,
        add_scalar_repl_aggregates_pass LLVMAddScalarReplAggregatesPass,
        add_slp_vectorize_pass LLVMAddSLPVectorizePass,
        add_lower_switch_pass LLVMAddLowerSwitchPass,
        add_type_based_alias_analysis_pass LLVMAddTypeBasedAliasAnalysisPass,
        add_basic_alias_analysis_pass LLVMAddBasicAliasAnalysisPass,
        add_verifier_pass LLVMAddVerifierPass,
    );
    impl<'c> PassManager<Module<'c>> {
        pub fn create(_: ()) -> Self {
            PassManager { p: unsafe { LLVMCreatePassManager() }, t: PhantomData }
        }
        pub fn run_on(&self, m: &Module<'c>) -> bool {
            unsafe { LLVMRunPassManager(self.p, m.m) == 1 }
        }
    }
    impl<T> Drop for PassManager<T> {
        fn drop(&mut self) { unsafe { LLVMDisposePassManager(self.p) } }
    }
    impl PassManagerBuilder {
        pub fn create() -> Self { PassManagerBuilder { b: unsafe { LLVMPassManagerBuilderCreate() } } }
        pub fn set_optimization_level(&self, l: OptimizationLevel) { unsafe { LLVMPassManagerBuilderSetOptLevel(self.b, l as u32) } }
        pub fn set_size_level(&self, l: u32) { unsafe { LLVMPassManagerBuilderSetSizeLevel(self.b, l) } }
        pub fn set_inliner_with_threshold(&self, t: u32) { unsafe { LLVMPassManagerBuilderUseInlinerWithThreshold(self.b, t) } }
        pub fn set_disable_unroll_loops(&self, t: bool) { unsafe { LLVMPassManagerBuilderSetDisableUnrollLoops(self.b, t as c_int) } }
        pub fn set_disable_unit_at_a_time(&self, t: bool) { unsafe { LLVMPassManagerBuilderSetDisableUnitAtATime(self.b, t as c_int) } }
        pub fn set_disable_simplify_lib_calls(&self, t: bool) { unsafe { LLVMPassManagerBuilderSetDisableSimplifyLibCalls(self.b, t as c_int) } }
        pub fn populate_module_pass_manager<'c>(&self, m: &PassManager<Module<'c>>) { unsafe { LLVMPassManagerBuilderPopulateModulePassManager(self.b, m.p) } }
    }
    impl Drop for PassManagerBuilder {
        fn drop(&mut self) { unsafe { LLVMPassManagerBuilderDispose(self.b) } }
    }
}

pub mod targets {
    use super::*;
    use crate::memory_buffer::MemoryBuffer;
    use crate::module::Module;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum CodeModel { Default = 0, JITDefault, Tiny, Small, Kernel, Medium, Large }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RelocMode { Default = 0, Static, PIC, DynamicNoPic }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum FileType { Assembly = 0, Object = 1 }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct TargetTriple(pub(crate) String);
    impl TargetTriple {
        pub fn create(s: &str) -> Self { TargetTriple(s.to_string()) }
    }
    #[derive(Debug, Clone)]
    pub struct InitializationConfig { pub asm_parser: bool, pub asm_printer: bool, pub base: bool, pub disassembler: bool, pub info: bool, pub machine_code: bool }
    impl Default for InitializationConfig {
        fn default() -> Self { InitializationConfig { asm_parser: true, asm_printer: true, base: true, disassembler: true, info: true, machine_code: true } }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Target(Ref);
    impl Target {
        pub fn initialize_webassembly(_: &InitializationConfig) {
            unsafe {
                LLVMInitializeWebAssemblyTargetInfo();
                LLVMInitializeWebAssemblyTarget();
                LLVMInitializeWebAssemblyTargetMC();
                LLVMInitializeWebAssemblyAsmPrinter();
                LLVMInitializeWebAssemblyAsmParser();
            }
        }
        pub fn from_name(n: &str) -> Option<Target> {
            let n = cs(n);
            let r = unsafe { LLVMGetTargetFromName(n.as_ptr()) };
            if r.is_null() { None } else { Some(Target(r)) }
        }
        pub fn create_target_machine(&self, t: &TargetTriple, cpu: &str, feat: &str, l: OptimizationLevel, r: RelocMode, c: CodeModel) -> Option<TargetMachine> {
            let (t, cpu, feat) = (cs(&t.0), cs(cpu), cs(feat));
            let m = unsafe { LLVMCreateTargetMachine(self.0, t.as_ptr(), cpu.as_ptr(), feat.as_ptr(), l as c_int, r as c_int, c as c_int) };
            if m.is_null() { None } else { Some(TargetMachine(m)) }
        }
    }
    #[derive(Debug)]
    pub struct TargetMachine(Ref);
    impl TargetMachine {
        pub fn write_to_memory_buffer(&self, m: &Module<'_>, k: FileType) -> Result<MemoryBuffer, LLVMString> {
            let mut e: *mut c_char = std::ptr::null_mut();
            let mut out: Ref = std::ptr::null_mut();
            if unsafe { LLVMTargetMachineEmitToMemoryBuffer(self.0, m.m, k as c_int, &mut e, &mut out) } != 0 {
                return Err(LLVMString(unsafe { take(e) }));
            }
            Ok(MemoryBuffer(out))
        }
    }
}
