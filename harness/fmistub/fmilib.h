// Stand-in for the FMI library: the functions that adevs uses, implemented by a model of
// an FMU in fmi_harness.cpp that records the calls.  Nothing is loaded, made or removed.
#ifndef FMILIB_STUB_H
#define FMILIB_STUB_H
#include <cstddef>
extern "C" {
typedef char const* jm_string;
typedef void* jm_voidp;
typedef enum { jm_status_error = -1, jm_status_success = 0, jm_status_warning = 1 } jm_status_enu_t;
typedef enum {
    jm_log_level_nothing, jm_log_level_fatal, jm_log_level_error, jm_log_level_warning,
    jm_log_level_info, jm_log_level_verbose, jm_log_level_debug, jm_log_level_all
} jm_log_level_enu_t;
typedef struct jm_callbacks jm_callbacks;
struct jm_callbacks {
    void* (*malloc)(size_t);
    void* (*calloc)(size_t, size_t);
    void* (*realloc)(void*, size_t);
    void (*free)(void*);
    void (*logger)(jm_callbacks*, jm_string, jm_log_level_enu_t, jm_string);
    jm_log_level_enu_t log_level;
    jm_voidp context;
    char errMessageBuffer[2000];
};
void jm_default_logger(jm_callbacks*, jm_string, jm_log_level_enu_t, jm_string);
typedef enum {
    fmi_version_unknown_enu = 0, fmi_version_1_enu, fmi_version_2_0_enu, fmi_version_3_0_enu,
    fmi_version_unsupported_enu
} fmi_version_enu_t;
typedef enum { fmi2_fmu_kind_unknown = 0, fmi2_fmu_kind_me, fmi2_fmu_kind_cs, fmi2_fmu_kind_me_and_cs } fmi2_fmu_kind_enu_t;
typedef enum { fmi2_model_exchange, fmi2_cosimulation } fmi2_type_t;
typedef enum { fmi2_status_ok, fmi2_status_warning, fmi2_status_discard, fmi2_status_error, fmi2_status_fatal, fmi2_status_pending } fmi2_status_t;
typedef enum { fmi2_base_type_real, fmi2_base_type_int, fmi2_base_type_bool, fmi2_base_type_str, fmi2_base_type_enum } fmi2_base_type_enu_t;
typedef enum {
    fmi2_me_needsExecutionTool = 0, fmi2_me_completedIntegratorStepNotNeeded, fmi2_me_canBeInstantiatedOnlyOncePerProcess,
    fmi2_me_canNotUseMemoryManagementFunctions, fmi2_me_canGetAndSetFMUstate, fmi2_me_canSerializeFMUstate,
    fmi2_me_providesDirectionalDerivatives, fmi2_me_completedEventIterationIsProvided
} fmi2_capabilities_enu_t;
typedef unsigned int fmi2_value_reference_t;
typedef double fmi2_real_t;
typedef int fmi2_integer_t;
typedef int fmi2_boolean_t;
#define fmi2_true 1
#define fmi2_false 0
typedef char const* fmi2_string_t;
typedef struct {
    fmi2_boolean_t newDiscreteStatesNeeded, terminateSimulation, nominalsOfContinuousStatesChanged,
        valuesOfContinuousStatesChanged, nextEventTimeDefined;
    fmi2_real_t nextEventTime;
} fmi2_event_info_t;
typedef struct fmi_import_context_t fmi_import_context_t;
typedef struct fmi2_import_t fmi2_import_t;
typedef struct fmi2_import_variable_t fmi2_import_variable_t;
typedef struct fmi2_import_variable_list_t fmi2_import_variable_list_t;
typedef void fmi2_callback_functions_t;
typedef void fmi2_xml_callbacks_t;

char* fmi_import_mk_temp_dir(jm_callbacks*, char const*, char const*);
jm_status_enu_t fmi_import_rmdir(jm_callbacks*, char const*);
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks*);
void fmi_import_free_context(fmi_import_context_t*);
fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t*, char const*, char const*);
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t*, char const*, fmi2_xml_callbacks_t*);
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t*);
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t*, fmi2_fmu_kind_enu_t, fmi2_callback_functions_t const*);
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t*, fmi2_string_t, fmi2_type_t, fmi2_string_t, fmi2_boolean_t);
size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t*);
size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t*);
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t*, int);
void fmi2_import_free_variable_list(fmi2_import_variable_list_t*);
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t*);
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t*, size_t);
char const* fmi2_import_get_variable_name(fmi2_import_variable_t*);
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t*);
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t*);
fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t*, fmi2_boolean_t, size_t, fmi2_string_t const*);
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t*, fmi2_boolean_t, fmi2_real_t, fmi2_real_t, fmi2_boolean_t, fmi2_real_t);
unsigned int fmi2_import_get_capability(fmi2_import_t*, fmi2_capabilities_enu_t);
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t*);
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t*);
fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t*, fmi2_event_info_t*);
fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t*);
fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t*);
fmi2_status_t fmi2_import_set_time(fmi2_import_t*, fmi2_real_t);
fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t*, fmi2_real_t const*, size_t);
fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t*, fmi2_real_t*, size_t);
fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t*, fmi2_real_t*, size_t);
fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t*, fmi2_real_t*, size_t);
fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t*, fmi2_boolean_t, fmi2_boolean_t*, fmi2_boolean_t*);
fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t*, fmi2_value_reference_t const*, size_t,
                                                     fmi2_value_reference_t const*, size_t, fmi2_real_t const*, fmi2_real_t*);
fmi2_status_t fmi2_import_get_real(fmi2_import_t*, fmi2_value_reference_t const*, size_t, fmi2_real_t*);
fmi2_status_t fmi2_import_get_integer(fmi2_import_t*, fmi2_value_reference_t const*, size_t, fmi2_integer_t*);
fmi2_status_t fmi2_import_get_boolean(fmi2_import_t*, fmi2_value_reference_t const*, size_t, fmi2_boolean_t*);
fmi2_status_t fmi2_import_set_real(fmi2_import_t*, fmi2_value_reference_t const*, size_t, fmi2_real_t const*);
fmi2_status_t fmi2_import_set_integer(fmi2_import_t*, fmi2_value_reference_t const*, size_t, fmi2_integer_t const*);
fmi2_status_t fmi2_import_set_boolean(fmi2_import_t*, fmi2_value_reference_t const*, size_t, fmi2_boolean_t const*);
fmi2_status_t fmi2_import_terminate(fmi2_import_t*);
fmi2_status_t fmi2_import_reset(fmi2_import_t*);
void fmi2_import_free_instance(fmi2_import_t*);
void fmi2_import_destroy_dllfmu(fmi2_import_t*);
void fmi2_import_free(fmi2_import_t*);
}
#endif
