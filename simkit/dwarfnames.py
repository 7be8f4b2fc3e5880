"""Names and numbers of the DWARF standard (versions 2 to 5), written down independently of objutils."""


def _t(text):
    out = {}
    for item in text.split():
        n, v = item.split(":")
        out[int(v, 16)] = n
    return out


TAGS = _t("""array_type:01 class_type:02 entry_point:03 enumeration_type:04 formal_parameter:05 imported_declaration:08 label:0a lexical_block:0b member:0d pointer_type:0f
reference_type:10 compile_unit:11 string_type:12 structure_type:13 subroutine_type:15 typedef:16 union_type:17 unspecified_parameters:18 variant:19 common_block:1a
common_inclusion:1b inheritance:1c inlined_subroutine:1d module:1e ptr_to_member_type:1f set_type:20 subrange_type:21 with_stmt:22 access_declaration:23 base_type:24
catch_block:25 const_type:26 constant:27 enumerator:28 file_type:29 friend:2a namelist:2b namelist_item:2c packed_type:2d subprogram:2e template_type_parameter:2f
template_value_parameter:30 thrown_type:31 try_block:32 variant_part:33 variable:34 volatile_type:35 dwarf_procedure:36 restrict_type:37 interface_type:38 namespace:39
imported_module:3a unspecified_type:3b partial_unit:3c imported_unit:3d condition:3f shared_type:40 type_unit:41 rvalue_reference_type:42 template_alias:43 coarray_type:44
generic_subrange:45 dynamic_type:46 atomic_type:47 call_site:48 call_site_parameter:49 skeleton_unit:4a immutable_type:4b""")

ATTRIBUTES = _t("""sibling:01 location:02 name:03 ordering:09 byte_size:0b bit_offset:0c bit_size:0d stmt_list:10 low_pc:11 high_pc:12 language:13 discr:15 discr_value:16 visibility:17
import:18 string_length:19 common_reference:1a comp_dir:1b const_value:1c containing_type:1d default_value:1e inline:20 is_optional:21 lower_bound:22 producer:25 prototyped:27
return_addr:2a start_scope:2c bit_stride:2e upper_bound:2f abstract_origin:31 accessibility:32 address_class:33 artificial:34 base_types:35 calling_convention:36 count:37
data_member_location:38 decl_column:39 decl_file:3a decl_line:3b declaration:3c discr_list:3d encoding:3e external:3f frame_base:40 friend:41 identifier_case:42 macro_info:43
namelist_item:44 priority:45 segment:46 specification:47 static_link:48 type:49 use_location:4a variable_parameter:4b virtuality:4c vtable_elem_location:4d allocated:4e
associated:4f data_location:50 byte_stride:51 entry_pc:52 use_UTF8:53 extension:54 ranges:55 trampoline:56 call_column:57 call_file:58 call_line:59 description:5a
binary_scale:5b decimal_scale:5c small:5d decimal_sign:5e digit_count:5f picture_string:60 mutable:61 threads_scaled:62 explicit:63 object_pointer:64 endianity:65 elemental:66
pure:67 recursive:68 signature:69 main_subprogram:6a data_bit_offset:6b const_expr:6c enum_class:6d linkage_name:6e string_length_bit_size:6f string_length_byte_size:70
rank:71 str_offsets_base:72 addr_base:73 rnglists_base:74 dwo_name:76 reference:77 rvalue_reference:78 macros:79 call_all_calls:7a call_all_source_calls:7b call_all_tail_calls:7c
call_return_pc:7d call_value:7e call_origin:7f call_parameter:80 call_pc:81 call_tail_call:82 call_target:83 call_target_clobbered:84 call_data_location:85 call_data_value:86
noreturn:87 alignment:88 export_symbols:89 deleted:8a defaulted:8b loclists_base:8c""")

FORMS = _t("""addr:01 block2:03 block4:04 data2:05 data4:06 data8:07 string:08 block:09 block1:0a data1:0b flag:0c sdata:0d strp:0e udata:0f ref_addr:10 ref1:11 ref2:12 ref4:13 ref8:14
ref_udata:15 indirect:16 sec_offset:17 exprloc:18 flag_present:19 strx:1a addrx:1b ref_sup4:1c strp_sup:1d data16:1e line_strp:1f ref_sig8:20 implicit_const:21 loclistx:22
rnglistx:23 ref_sup8:24 strx1:25 strx2:26 strx3:27 strx4:28 addrx1:29 addrx2:2a addrx3:2b addrx4:2c""")

BASE_TYPES = _t("""address:01 boolean:02 complex_float:03 float:04 signed:05 signed_char:06 unsigned:07 unsigned_char:08 imaginary_float:09 packed_decimal:0a numeric_string:0b edited:0c
signed_fixed:0d unsigned_fixed:0e decimal_float:0f UTF:10 UCS:11 ASCII:12""")
LANGUAGES = _t("""C89:01 C:02 Ada83:03 C_plus_plus:04 Cobol74:05 Cobol85:06 Fortran77:07 Fortran90:08 Pascal83:09 Modula2:0a Java:0b C99:0c Ada95:0d Fortran95:0e PLI:0f ObjC:10
ObjC_plus_plus:11 UPC:12 D:13 Python:14 OpenCL:15 Go:16 Modula3:17 Haskell:18 C_plus_plus_03:19 C_plus_plus_11:1a OCaml:1b Rust:1c C11:1d Swift:1e Julia:1f C_plus_plus_14:21
Fortran03:22 Fortran08:23 RenderScript:24 BLISS:25""")
ACCESS = _t("public:01 protected:02 private:03")
VISIBILITY = _t("local:01 exported:02 qualified:03")
VIRTUALITY = _t("none:00 virtual:01 pure_virtual:02")
INLINE = _t("not_inlined:00 inlined:01 declared_not_inlined:02 declared_inlined:03")
ORDERING = _t("row_major:00 col_major:01")
CALLING = _t("normal:01 program:02 nocall:03 pass_by_reference:04 pass_by_value:05")
IDCASE = _t("case_sensitive:00 up_case:01 down_case:02 case_insensitive:03")
DECSIGN = _t("unsigned:01 leading_overpunch:02 trailing_overpunch:03 leading_separate:04 trailing_separate:05")
ENDIAN = _t("default:00 big:01 little:02")
DEFAULTED = _t("no:00 in_class:01 out_of_class:02")
ENCODED = {"encoding": BASE_TYPES, "language": LANGUAGES, "accessibility": ACCESS, "visibility": VISIBILITY, "virtuality": VIRTUALITY, "inline": INLINE, "ordering": ORDERING,
           "calling_convention": CALLING, "identifier_case": IDCASE, "decimal_sign": DECSIGN, "endianity": ENDIAN, "defaulted": DEFAULTED}
