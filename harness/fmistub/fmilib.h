// The part of the FMI Library's interface that a model exchange importer uses.
// The functions are defined by the mock in harness/c20.cpp, which implements the
// FMI 2.0 state machine for model exchange.
#pragma once
#include <stddef.h>
typedef int jm_status_enu_t;
enum { jm_status_error = -1, jm_status_success = 0, jm_status_warning = 1 };
typedef enum { jm_log_level_nothing, jm_log_level_fatal, jm_log_level_error, jm_log_level_warning, jm_log_level_info,
               jm_log_level_verbose, jm_log_level_debug, jm_log_level_all } jm_log_level_enu_t;
typedef const char* jm_string;
typedef void* jm_voidp;
struct jm_callbacks;
typedef void (*jm_logger_f)(jm_callbacks* c, jm_string module, jm_log_level_enu_t level, jm_string message);
struct jm_callbacks {
    void* (*malloc)(size_t);
    void* (*calloc)(size_t, size_t);
    void* (*realloc)(void*, size_t);
    void (*free)(void*);
    jm_logger_f logger;
    jm_log_level_enu_t log_level;
    jm_voidp context;
    char errMessageBuffer[64];
};
void jm_default_logger(jm_callbacks* c, jm_string module, jm_log_level_enu_t level, jm_string message);
typedef enum { fmi_version_unknown_enu = 0, fmi_version_1_enu, fmi_version_2_0_enu, fmi_version_3_0_enu, fmi_version_unsupported_enu } fmi_version_enu_t;
typedef enum { fmi2_fmu_kind_unknown = 0, fmi2_fmu_kind_me = 1, fmi2_fmu_kind_cs = 2, fmi2_fmu_kind_me_and_cs = 3 } fmi2_fmu_kind_enu_t;
typedef enum { fmi2_model_exchange, fmi2_cosimulation } fmi2_type_t;
typedef enum { fmi2_base_type_real, fmi2_base_type_int, fmi2_base_type_bool, fmi2_base_type_str, fmi2_base_type_enum } fmi2_base_type_enu_t;
typedef enum { fmi2_status_ok, fmi2_status_warning, fmi2_status_discard, fmi2_status_error, fmi2_status_fatal, fmi2_status_pending } fmi2_status_t;
typedef enum { fmi2_me_needsExecutionTool, fmi2_me_completedIntegratorStepNotNeeded, fmi2_me_canBeInstantiatedOnlyOncePerProcess,
               fmi2_me_canNotUseMemoryManagementFunctions, fmi2_me_canGetAndSetFMUstate, fmi2_me_canSerializeFMUstate,
               fmi2_me_providesDirectionalDerivatives } fmi2_capabilities_enu_t;
typedef unsigned int fmi2_value_reference_t;
typedef double fmi2_real_t;
typedef int fmi2_integer_t;
typedef int fmi2_boolean_t;
typedef const char* fmi2_string_t;
#define fmi2_true 1
#define fmi2_false 0
typedef struct {
    fmi2_boolean_t newDiscreteStatesNeeded, terminateSimulation, nominalsOfContinuousStatesChanged, valuesOfContinuousStatesChanged, nextEventTimeDefined;
    fmi2_real_t nextEventTime;
} fmi2_event_info_t;
typedef struct fmi2_import_t fmi2_import_t;
typedef struct fmi_import_context_t fmi_import_context_t;
typedef struct fmi2_import_variable_t fmi2_import_variable_t;
typedef struct fmi2_import_variable_list_t fmi2_import_variable_list_t;
typedef struct fmi2_xml_callbacks_t fmi2_xml_callbacks_t;
typedef struct fmi2_callback_functions_t fmi2_callback_functions_t;
char* fmi_import_mk_temp_dir(jm_callbacks* cb, const char* systemTempDir, const char* tempPrefix);
jm_status_enu_t fmi_import_rmdir(jm_callbacks* cb, const char* dir);
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks* cb);
void fmi_import_free_context(fmi_import_context_t* c);
fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t* c, const char* fileName, const char* dirName);
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t* c, const char* dirPath, fmi2_xml_callbacks_t* cb);
void fmi2_import_free(fmi2_import_t* fmu);
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t* fmu);
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* fmu, fmi2_fmu_kind_enu_t kind, const fmi2_callback_functions_t* cb);
void fmi2_import_destroy_dllfmu(fmi2_import_t* fmu);
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* fmu, fmi2_string_t name, fmi2_type_t type, fmi2_string_t resource, fmi2_boolean_t visible);
void fmi2_import_free_instance(fmi2_import_t* fmu);
size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t* fmu);
size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t* fmu);
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* fmu, int sortOrder);
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t* vl);
void fmi2_import_free_variable_list(fmi2_import_variable_list_t* vl);
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t* vl, size_t i);
const char* fmi2_import_get_variable_name(fmi2_import_variable_t* v);
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t* v);
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t* v);
fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t* fmu, fmi2_boolean_t on, size_t n, fmi2_string_t categories[]);
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* fmu, fmi2_boolean_t tolDefined, fmi2_real_t tol, fmi2_real_t startTime, fmi2_boolean_t stopDefined, fmi2_real_t stopTime);
unsigned int fmi2_import_get_capability(fmi2_import_t* fmu, fmi2_capabilities_enu_t id);
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t* fmu, fmi2_event_info_t* info);
fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t* fmu, fmi2_boolean_t noPrior, fmi2_boolean_t* enterEventMode, fmi2_boolean_t* terminateSimulation);
fmi2_status_t fmi2_import_set_time(fmi2_import_t* fmu, fmi2_real_t t);
fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t* fmu, const fmi2_real_t x[], size_t n);
fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t* fmu, fmi2_real_t dx[], size_t n);
fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t* fmu, fmi2_real_t z[], size_t n);
fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t* fmu, fmi2_real_t x[], size_t n);
fmi2_status_t fmi2_import_get_nominals_of_continuous_states(fmi2_import_t* fmu, fmi2_real_t x[], size_t n);
fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t* fmu, const fmi2_value_reference_t v_ref[], size_t nv, const fmi2_value_reference_t z_ref[], size_t nz, const fmi2_real_t dv[], fmi2_real_t dz[]);
fmi2_status_t fmi2_import_terminate(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_reset(fmi2_import_t* fmu);
fmi2_status_t fmi2_import_get_real(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t n, fmi2_real_t v[]);
fmi2_status_t fmi2_import_get_integer(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t n, fmi2_integer_t v[]);
fmi2_status_t fmi2_import_get_boolean(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t n, fmi2_boolean_t v[]);
fmi2_status_t fmi2_import_get_string(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t n, fmi2_string_t v[]);
fmi2_status_t fmi2_import_set_real(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t n, const fmi2_real_t v[]);
fmi2_status_t fmi2_import_set_integer(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t n, const fmi2_integer_t v[]);
fmi2_status_t fmi2_import_set_boolean(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t n, const fmi2_boolean_t v[]);
fmi2_status_t fmi2_import_set_string(fmi2_import_t* fmu, const fmi2_value_reference_t vr[], size_t n, const fmi2_string_t v[]);
