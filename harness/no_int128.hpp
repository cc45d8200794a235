// Everything after this include belongs to a second build of the library, without 128-bit integers:
// its namespaces and C functions get names of their own, so that both builds live in one program.
#define ABIEOS_NO_INT128
#define eosio eosio_n
#define abieos abieos_n
#define abieos_context n_abieos_context
#define abieos_context_s n_abieos_context_s
#define abieos_create n_abieos_create
#define abieos_destroy n_abieos_destroy
#define abieos_get_error n_abieos_get_error
#define abieos_get_bin_size n_abieos_get_bin_size
#define abieos_get_bin_data n_abieos_get_bin_data
#define abieos_get_bin_hex n_abieos_get_bin_hex
#define abieos_string_to_name n_abieos_string_to_name
#define abieos_name_to_string n_abieos_name_to_string
#define abieos_set_abi n_abieos_set_abi
#define abieos_set_abi_bin n_abieos_set_abi_bin
#define abieos_set_abi_hex n_abieos_set_abi_hex
#define abieos_get_type_for_action n_abieos_get_type_for_action
#define abieos_get_type_for_table n_abieos_get_type_for_table
#define abieos_json_to_bin n_abieos_json_to_bin
#define abieos_json_to_bin_reorderable n_abieos_json_to_bin_reorderable
#define abieos_bin_to_json n_abieos_bin_to_json
#define abieos_hex_to_json n_abieos_hex_to_json
#define fix_null_str n_fix_null_str
#define catch_all n_catch_all
