package main

import "github.com/NubeDev/bacnet/btypes"

// constant is a number of the standard and what the library takes for it.
type constant struct {
	name     string
	std, lib uint64
}

var constants = map[string][]constant{
	"property": {
		{"PROP_ACKED_TRANSITIONS", 0, uint64(btypes.PROP_ACKED_TRANSITIONS)}, {"PROP_ACK_REQUIRED", 1, uint64(btypes.PROP_ACK_REQUIRED)},
		{"PROP_ACTION", 2, uint64(btypes.PROP_ACTION)}, {"PROP_ACTION_TEXT", 3, uint64(btypes.PROP_ACTION_TEXT)}, {"PROP_ACTIVE_TEXT", 4, uint64(btypes.PROP_ACTIVE_TEXT)},
		{"PROP_ACTIVE_VT_SESSIONS", 5, uint64(btypes.PROP_ACTIVE_VT_SESSIONS)}, {"PROP_ALARM_VALUE", 6, uint64(btypes.PROP_ALARM_VALUE)},
		{"PROP_ALARM_VALUES", 7, uint64(btypes.PROP_ALARM_VALUES)}, {"PROP_ALL", 8, uint64(btypes.PROP_ALL)}, {"PropAllProperties", 8, uint64(btypes.PropAllProperties)},
		{"PROP_ALL_WRITES_SUCCESSFUL", 9, uint64(btypes.PROP_ALL_WRITES_SUCCESSFUL)}, {"PROP_APDU_SEGMENT_TIMEOUT", 10, uint64(btypes.PROP_APDU_SEGMENT_TIMEOUT)},
		{"PROP_APDU_TIMEOUT", 11, uint64(btypes.PROP_APDU_TIMEOUT)}, {"PROP_APPLICATION_SOFTWARE_VERSION", 12, uint64(btypes.PROP_APPLICATION_SOFTWARE_VERSION)},
		{"PROP_ARCHIVE", 13, uint64(btypes.PROP_ARCHIVE)}, {"PROP_BIAS", 14, uint64(btypes.PROP_BIAS)},
		{"PROP_CHANGE_OF_STATE_COUNT", 15, uint64(btypes.PROP_CHANGE_OF_STATE_COUNT)}, {"PROP_CHANGE_OF_STATE_TIME", 16, uint64(btypes.PROP_CHANGE_OF_STATE_TIME)},
		{"PROP_NOTIFICATION_CLASS", 17, uint64(btypes.PROP_NOTIFICATION_CLASS)}, {"PROP_BLANK_1", 18, uint64(btypes.PROP_BLANK_1)},
		{"PROP_CONTROLLED_VARIABLE_REFERENCE", 19, uint64(btypes.PROP_CONTROLLED_VARIABLE_REFERENCE)},
		{"PROP_CONTROLLED_VARIABLE_Propertybtypes", 20, uint64(btypes.PROP_CONTROLLED_VARIABLE_Propertybtypes)},
		{"PROP_CONTROLLED_VARIABLE_VALUE", 21, uint64(btypes.PROP_CONTROLLED_VARIABLE_VALUE)}, {"PROP_COV_INCREMENT", 22, uint64(btypes.PROP_COV_INCREMENT)},
		{"PROP_DATE_LIST", 23, uint64(btypes.PROP_DATE_LIST)}, {"PROP_DAYLIGHT_SAVINGS_STATUS", 24, uint64(btypes.PROP_DAYLIGHT_SAVINGS_STATUS)},
		{"PROP_DEADBAND", 25, uint64(btypes.PROP_DEADBAND)}, {"PROP_DERIVATIVE_CONSTANT", 26, uint64(btypes.PROP_DERIVATIVE_CONSTANT)},
		{"PROP_DERIVATIVE_CONSTANT_Propertybtypes", 27, uint64(btypes.PROP_DERIVATIVE_CONSTANT_Propertybtypes)}, {"PROP_DESCRIPTION", 28, uint64(btypes.PROP_DESCRIPTION)},
		{"PropDescription", 28, uint64(btypes.PropDescription)}, {"PROP_DESCRIPTION_OF_HALT", 29, uint64(btypes.PROP_DESCRIPTION_OF_HALT)},
		{"PROP_DEVICE_ADDRESS_BINDING", 30, uint64(btypes.PROP_DEVICE_ADDRESS_BINDING)}, {"PROP_DEVICE_TYPE", 31, uint64(btypes.PROP_DEVICE_TYPE)},
		{"PROP_EFFECTIVE_PERIOD", 32, uint64(btypes.PROP_EFFECTIVE_PERIOD)}, {"PROP_ELAPSED_ACTIVE_TIME", 33, uint64(btypes.PROP_ELAPSED_ACTIVE_TIME)},
		{"PROP_ERROR_LIMIT", 34, uint64(btypes.PROP_ERROR_LIMIT)}, {"PROP_EVENT_ENABLE", 35, uint64(btypes.PROP_EVENT_ENABLE)},
		{"PROP_EVENT_STATE", 36, uint64(btypes.PROP_EVENT_STATE)}, {"PROP_EVENT_TYPE", 37, uint64(btypes.PROP_EVENT_TYPE)},
		{"PROP_EXCEPTION_SCHEDULE", 38, uint64(btypes.PROP_EXCEPTION_SCHEDULE)}, {"PROP_FAULT_VALUES", 39, uint64(btypes.PROP_FAULT_VALUES)},
		{"PROP_FEEDBACK_VALUE", 40, uint64(btypes.PROP_FEEDBACK_VALUE)}, {"PROP_FILE_ACCESS_METHOD", 41, uint64(btypes.PROP_FILE_ACCESS_METHOD)},
		{"PROP_FILE_SIZE", 42, uint64(btypes.PROP_FILE_SIZE)}, {"PropFileSize", 42, uint64(btypes.PropFileSize)}, {"PROP_FILE_TYPE", 43, uint64(btypes.PROP_FILE_TYPE)},
		{"PropFileType", 43, uint64(btypes.PropFileType)}, {"PROP_FIRMWARE_REVISION", 44, uint64(btypes.PROP_FIRMWARE_REVISION)},
		{"PROP_HIGH_LIMIT", 45, uint64(btypes.PROP_HIGH_LIMIT)}, {"PROP_INACTIVE_TEXT", 46, uint64(btypes.PROP_INACTIVE_TEXT)},
		{"PROP_IN_PROCESS", 47, uint64(btypes.PROP_IN_PROCESS)}, {"PROP_INSTANCE_OF", 48, uint64(btypes.PROP_INSTANCE_OF)},
		{"PROP_INTEGRAL_CONSTANT", 49, uint64(btypes.PROP_INTEGRAL_CONSTANT)},
		{"PROP_INTEGRAL_CONSTANT_Propertybtypes", 50, uint64(btypes.PROP_INTEGRAL_CONSTANT_Propertybtypes)},
		{"PROP_ISSUE_CONFIRMED_NOTIFICATIONS", 51, uint64(btypes.PROP_ISSUE_CONFIRMED_NOTIFICATIONS)}, {"PROP_LIMIT_ENABLE", 52, uint64(btypes.PROP_LIMIT_ENABLE)},
		{"PROP_LIST_OF_GROUP_MEMBERS", 53, uint64(btypes.PROP_LIST_OF_GROUP_MEMBERS)},
		{"PROP_LIST_OF_OBJECT_PROPERTY_REFERENCES", 54, uint64(btypes.PROP_LIST_OF_OBJECT_PROPERTY_REFERENCES)},
		{"PROP_LIST_OF_SESSION_KEYS", 55, uint64(btypes.PROP_LIST_OF_SESSION_KEYS)}, {"PROP_LOCAL_DATE", 56, uint64(btypes.PROP_LOCAL_DATE)},
		{"PROP_LOCAL_TIME", 57, uint64(btypes.PROP_LOCAL_TIME)}, {"PROP_LOCATION", 58, uint64(btypes.PROP_LOCATION)}, {"PROP_LOW_LIMIT", 59, uint64(btypes.PROP_LOW_LIMIT)},
		{"PROP_MANIPULATED_VARIABLE_REFERENCE", 60, uint64(btypes.PROP_MANIPULATED_VARIABLE_REFERENCE)}, {"PROP_MAXIMUM_OUTPUT", 61, uint64(btypes.PROP_MAXIMUM_OUTPUT)},
		{"PropMaxAPDU", 62, uint64(btypes.PropMaxAPDU)}, {"PROP_MAX_INFO_FRAMES", 63, uint64(btypes.PROP_MAX_INFO_FRAMES)},
		{"PROP_MAX_MASTER", 64, uint64(btypes.PROP_MAX_MASTER)}, {"PROP_MAX_PRES_VALUE", 65, uint64(btypes.PROP_MAX_PRES_VALUE)},
		{"PROP_MINIMUM_OFF_TIME", 66, uint64(btypes.PROP_MINIMUM_OFF_TIME)}, {"PROP_MINIMUM_ON_TIME", 67, uint64(btypes.PROP_MINIMUM_ON_TIME)},
		{"PROP_MINIMUM_OUTPUT", 68, uint64(btypes.PROP_MINIMUM_OUTPUT)}, {"PROP_MIN_PRES_VALUE", 69, uint64(btypes.PROP_MIN_PRES_VALUE)},
		{"PROP_MODEL_NAME", 70, uint64(btypes.PROP_MODEL_NAME)}, {"PropModelName", 70, uint64(btypes.PropModelName)},
		{"PROP_MODIFICATION_DATE", 71, uint64(btypes.PROP_MODIFICATION_DATE)}, {"PROP_NOTIFY_TYPE", 72, uint64(btypes.PROP_NOTIFY_TYPE)},
		{"PROP_NUMBER_OF_APDU_RETRIES", 73, uint64(btypes.PROP_NUMBER_OF_APDU_RETRIES)}, {"PROP_NUMBER_OF_STATES", 74, uint64(btypes.PROP_NUMBER_OF_STATES)},
		{"PROP_OBJECT_IDENTIFIER", 75, uint64(btypes.PROP_OBJECT_IDENTIFIER)}, {"PropObjectIdentifier", 75, uint64(btypes.PropObjectIdentifier)},
		{"PROP_OBJECT_LIST", 76, uint64(btypes.PROP_OBJECT_LIST)}, {"PropObjectList", 76, uint64(btypes.PropObjectList)},
		{"PROP_OBJECT_NAME", 77, uint64(btypes.PROP_OBJECT_NAME)}, {"PropObjectName", 77, uint64(btypes.PropObjectName)},
		{"PROP_OBJECT_PROPERTY_REFERENCE", 78, uint64(btypes.PROP_OBJECT_PROPERTY_REFERENCE)}, {"PropObjectReference", 78, uint64(btypes.PropObjectReference)},
		{"PROP_OBJECT_TYPE", 79, uint64(btypes.PROP_OBJECT_TYPE)}, {"PropObjectType", 79, uint64(btypes.PropObjectType)}, {"PROP_OPTIONAL", 80, uint64(btypes.PROP_OPTIONAL)},
		{"PROP_OUT_OF_SERVICE", 81, uint64(btypes.PROP_OUT_OF_SERVICE)}, {"PROP_OUTPUT_Propertybtypes", 82, uint64(btypes.PROP_OUTPUT_Propertybtypes)},
		{"PROP_EVENT_PARAMETERS", 83, uint64(btypes.PROP_EVENT_PARAMETERS)}, {"PROP_POLARITY", 84, uint64(btypes.PROP_POLARITY)},
		{"PROP_PRESENT_VALUE", 85, uint64(btypes.PROP_PRESENT_VALUE)}, {"PropPresentValue", 85, uint64(btypes.PropPresentValue)},
		{"PROP_PRIORITY", 86, uint64(btypes.PROP_PRIORITY)}, {"PROP_PRIORITY_ARRAY", 87, uint64(btypes.PROP_PRIORITY_ARRAY)},
		{"PropPriorityArray", 87, uint64(btypes.PropPriorityArray)}, {"PROP_PRIORITY_FOR_WRITING", 88, uint64(btypes.PROP_PRIORITY_FOR_WRITING)},
		{"PROP_PROCESS_IDENTIFIER", 89, uint64(btypes.PROP_PROCESS_IDENTIFIER)}, {"PROP_PROGRAM_CHANGE", 90, uint64(btypes.PROP_PROGRAM_CHANGE)},
		{"PROP_PROGRAM_LOCATION", 91, uint64(btypes.PROP_PROGRAM_LOCATION)}, {"PROP_PROGRAM_STATE", 92, uint64(btypes.PROP_PROGRAM_STATE)},
		{"PROP_PROPORTIONAL_CONSTANT", 93, uint64(btypes.PROP_PROPORTIONAL_CONSTANT)},
		{"PROP_PROPORTIONAL_CONSTANT_Propertybtypes", 94, uint64(btypes.PROP_PROPORTIONAL_CONSTANT_Propertybtypes)},
		{"PROP_PROTOCOL_CONFORMANCE_CLASS", 95, uint64(btypes.PROP_PROTOCOL_CONFORMANCE_CLASS)},
		{"PropProtocolObjectTypesSupported", 96, uint64(btypes.PropProtocolObjectTypesSupported)}, {"ProtocolServicesSupported", 97, uint64(btypes.ProtocolServicesSupported)},
		{"PROP_PROTOCOL_VERSION", 98, uint64(btypes.PROP_PROTOCOL_VERSION)}, {"PROP_READ_ONLY", 99, uint64(btypes.PROP_READ_ONLY)},
		{"PROP_REASON_FOR_HALT", 100, uint64(btypes.PROP_REASON_FOR_HALT)}, {"PROP_RECIPIENT", 101, uint64(btypes.PROP_RECIPIENT)},
		{"PROP_RECIPIENT_LIST", 102, uint64(btypes.PROP_RECIPIENT_LIST)}, {"PROP_RELIABILITY", 103, uint64(btypes.PROP_RELIABILITY)},
		{"PROP_RELINQUISH_DEFAULT", 104, uint64(btypes.PROP_RELINQUISH_DEFAULT)}, {"PROP_REQUIRED", 105, uint64(btypes.PROP_REQUIRED)},
		{"PROP_RESOLUTION", 106, uint64(btypes.PROP_RESOLUTION)}, {"PropSegmentationSupported", 107, uint64(btypes.PropSegmentationSupported)},
		{"PROP_SETPOINT", 108, uint64(btypes.PROP_SETPOINT)}, {"PROP_SETPOINT_REFERENCE", 109, uint64(btypes.PROP_SETPOINT_REFERENCE)},
		{"PROP_STATE_TEXT", 110, uint64(btypes.PROP_STATE_TEXT)}, {"PROP_STATUS_FLAGS", 111, uint64(btypes.PROP_STATUS_FLAGS)},
		{"PROP_SYSTEM_STATUS", 112, uint64(btypes.PROP_SYSTEM_STATUS)}, {"PROP_TIME_DELAY", 113, uint64(btypes.PROP_TIME_DELAY)},
		{"PROP_TIME_OF_ACTIVE_TIME_RESET", 114, uint64(btypes.PROP_TIME_OF_ACTIVE_TIME_RESET)},
		{"PROP_TIME_OF_STATE_COUNT_RESET", 115, uint64(btypes.PROP_TIME_OF_STATE_COUNT_RESET)},
		{"PROP_TIME_SYNCHRONIZATION_RECIPIENTS", 116, uint64(btypes.PROP_TIME_SYNCHRONIZATION_RECIPIENTS)}, {"PROP_Propertybtypes", 117, uint64(btypes.PROP_Propertybtypes)},
		{"PropUnits", 117, uint64(btypes.PropUnits)}, {"PROP_UPDATE_INTERVAL", 118, uint64(btypes.PROP_UPDATE_INTERVAL)},
		{"PROP_UTC_OFFSET", 119, uint64(btypes.PROP_UTC_OFFSET)}, {"PROP_VENDOR_IDENTIFIER", 120, uint64(btypes.PROP_VENDOR_IDENTIFIER)},
		{"PropVendorIdentifier", 120, uint64(btypes.PropVendorIdentifier)}, {"PropVendorName", 121, uint64(btypes.PropVendorName)},
		{"PROP_VT_CLASSES_SUPPORTED", 122, uint64(btypes.PROP_VT_CLASSES_SUPPORTED)}, {"PROP_WEEKLY_SCHEDULE", 123, uint64(btypes.PROP_WEEKLY_SCHEDULE)},
		{"PROP_ATTEMPTED_SAMPLES", 124, uint64(btypes.PROP_ATTEMPTED_SAMPLES)}, {"PROP_AVERAGE_VALUE", 125, uint64(btypes.PROP_AVERAGE_VALUE)},
		{"PROP_BUFFER_SIZE", 126, uint64(btypes.PROP_BUFFER_SIZE)}, {"PROP_CLIENT_COV_INCREMENT", 127, uint64(btypes.PROP_CLIENT_COV_INCREMENT)},
		{"PROP_COV_RESUBSCRIPTION_INTERVAL", 128, uint64(btypes.PROP_COV_RESUBSCRIPTION_INTERVAL)}, {"PROP_CURRENT_NOTIFY_TIME", 129, uint64(btypes.PROP_CURRENT_NOTIFY_TIME)},
		{"PROP_EVENT_TIME_STAMPS", 130, uint64(btypes.PROP_EVENT_TIME_STAMPS)}, {"PROP_LOG_BUFFER", 131, uint64(btypes.PROP_LOG_BUFFER)},
		{"PROP_LOG_DEVICE_OBJECT_PROPERTY", 132, uint64(btypes.PROP_LOG_DEVICE_OBJECT_PROPERTY)}, {"PROP_ENABLE", 133, uint64(btypes.PROP_ENABLE)},
		{"PROP_LOG_INTERVAL", 134, uint64(btypes.PROP_LOG_INTERVAL)}, {"PROP_MAXIMUM_VALUE", 135, uint64(btypes.PROP_MAXIMUM_VALUE)},
		{"PROP_MINIMUM_VALUE", 136, uint64(btypes.PROP_MINIMUM_VALUE)}, {"PROP_NOTIFICATION_THRESHOLD", 137, uint64(btypes.PROP_NOTIFICATION_THRESHOLD)},
		{"PROP_PREVIOUS_NOTIFY_TIME", 138, uint64(btypes.PROP_PREVIOUS_NOTIFY_TIME)}, {"PROP_PROTOCOL_REVISION", 139, uint64(btypes.PROP_PROTOCOL_REVISION)},
		{"PROP_RECORDS_SINCE_NOTIFICATION", 140, uint64(btypes.PROP_RECORDS_SINCE_NOTIFICATION)}, {"PROP_RECORD_COUNT", 141, uint64(btypes.PROP_RECORD_COUNT)},
		{"PROP_START_TIME", 142, uint64(btypes.PROP_START_TIME)}, {"PROP_STOP_TIME", 143, uint64(btypes.PROP_STOP_TIME)},
		{"PROP_STOP_WHEN_FULL", 144, uint64(btypes.PROP_STOP_WHEN_FULL)}, {"PROP_TOTAL_RECORD_COUNT", 145, uint64(btypes.PROP_TOTAL_RECORD_COUNT)},
		{"PROP_VALID_SAMPLES", 146, uint64(btypes.PROP_VALID_SAMPLES)}, {"PROP_WINDOW_INTERVAL", 147, uint64(btypes.PROP_WINDOW_INTERVAL)},
		{"PROP_WINDOW_SAMPLES", 148, uint64(btypes.PROP_WINDOW_SAMPLES)}, {"PROP_MAXIMUM_VALUE_TIMESTAMP", 149, uint64(btypes.PROP_MAXIMUM_VALUE_TIMESTAMP)},
		{"PROP_MINIMUM_VALUE_TIMESTAMP", 150, uint64(btypes.PROP_MINIMUM_VALUE_TIMESTAMP)}, {"PROP_VARIANCE_VALUE", 151, uint64(btypes.PROP_VARIANCE_VALUE)},
		{"PROP_ACTIVE_COV_SUBSCRIPTIONS", 152, uint64(btypes.PROP_ACTIVE_COV_SUBSCRIPTIONS)}, {"PROP_BACKUP_FAILURE_TIMEOUT", 153, uint64(btypes.PROP_BACKUP_FAILURE_TIMEOUT)},
		{"PROP_CONFIGURATION_FILES", 154, uint64(btypes.PROP_CONFIGURATION_FILES)}, {"PROP_DATABASE_REVISION", 155, uint64(btypes.PROP_DATABASE_REVISION)},
		{"PROP_DIRECT_READING", 156, uint64(btypes.PROP_DIRECT_READING)}, {"PROP_LAST_RESTORE_TIME", 157, uint64(btypes.PROP_LAST_RESTORE_TIME)},
		{"PROP_MAINTENANCE_REQUIRED", 158, uint64(btypes.PROP_MAINTENANCE_REQUIRED)}, {"PROP_MEMBER_OF", 159, uint64(btypes.PROP_MEMBER_OF)},
		{"PROP_MODE", 160, uint64(btypes.PROP_MODE)}, {"PROP_OPERATION_EXPECTED", 161, uint64(btypes.PROP_OPERATION_EXPECTED)},
		{"PROP_SETTING", 162, uint64(btypes.PROP_SETTING)}, {"PROP_SILENCED", 163, uint64(btypes.PROP_SILENCED)},
		{"PROP_TRACKING_VALUE", 164, uint64(btypes.PROP_TRACKING_VALUE)}, {"PROP_ZONE_MEMBERS", 165, uint64(btypes.PROP_ZONE_MEMBERS)},
		{"PROP_LIFE_SAFETY_ALARM_VALUES", 166, uint64(btypes.PROP_LIFE_SAFETY_ALARM_VALUES)}, {"PROP_MAX_SEGMENTS_ACCEPTED", 167, uint64(btypes.PROP_MAX_SEGMENTS_ACCEPTED)},
		{"PROP_PROFILE_NAME", 168, uint64(btypes.PROP_PROFILE_NAME)}, {"PROP_AUTO_SLAVE_DISCOVERY", 169, uint64(btypes.PROP_AUTO_SLAVE_DISCOVERY)},
		{"PROP_MANUAL_SLAVE_ADDRESS_BINDING", 170, uint64(btypes.PROP_MANUAL_SLAVE_ADDRESS_BINDING)},
		{"PROP_SLAVE_ADDRESS_BINDING", 171, uint64(btypes.PROP_SLAVE_ADDRESS_BINDING)}, {"PROP_SLAVE_PROXY_ENABLE", 172, uint64(btypes.PROP_SLAVE_PROXY_ENABLE)},
		{"PROP_LAST_NOTIFY_RECORD", 173, uint64(btypes.PROP_LAST_NOTIFY_RECORD)}, {"PROP_SCHEDULE_DEFAULT", 174, uint64(btypes.PROP_SCHEDULE_DEFAULT)},
		{"PROP_ACCEPTED_MODES", 175, uint64(btypes.PROP_ACCEPTED_MODES)}, {"PROP_ADJUST_VALUE", 176, uint64(btypes.PROP_ADJUST_VALUE)},
		{"PROP_COUNT", 177, uint64(btypes.PROP_COUNT)}, {"PROP_COUNT_BEFORE_CHANGE", 178, uint64(btypes.PROP_COUNT_BEFORE_CHANGE)},
		{"PROP_COUNT_CHANGE_TIME", 179, uint64(btypes.PROP_COUNT_CHANGE_TIME)}, {"PROP_COV_PERIOD", 180, uint64(btypes.PROP_COV_PERIOD)},
		{"PROP_INPUT_REFERENCE", 181, uint64(btypes.PROP_INPUT_REFERENCE)}, {"PROP_LIMIT_MONITORING_INTERVAL", 182, uint64(btypes.PROP_LIMIT_MONITORING_INTERVAL)},
		{"PROP_LOGGING_OBJECT", 183, uint64(btypes.PROP_LOGGING_OBJECT)}, {"PROP_LOGGING_RECORD", 184, uint64(btypes.PROP_LOGGING_RECORD)},
		{"PROP_PRESCALE", 185, uint64(btypes.PROP_PRESCALE)}, {"PROP_PULSE_RATE", 186, uint64(btypes.PROP_PULSE_RATE)}, {"PROP_SCALE", 187, uint64(btypes.PROP_SCALE)},
		{"PROP_SCALE_FACTOR", 188, uint64(btypes.PROP_SCALE_FACTOR)}, {"PROP_UPDATE_TIME", 189, uint64(btypes.PROP_UPDATE_TIME)},
		{"PROP_VALUE_BEFORE_CHANGE", 190, uint64(btypes.PROP_VALUE_BEFORE_CHANGE)}, {"PROP_VALUE_SET", 191, uint64(btypes.PROP_VALUE_SET)},
		{"PROP_VALUE_CHANGE_TIME", 192, uint64(btypes.PROP_VALUE_CHANGE_TIME)}, {"PROP_ALIGN_INTERVALS", 193, uint64(btypes.PROP_ALIGN_INTERVALS)},
		{"PROP_INTERVAL_OFFSET", 195, uint64(btypes.PROP_INTERVAL_OFFSET)}, {"PROP_LAST_RESTART_REASON", 196, uint64(btypes.PROP_LAST_RESTART_REASON)},
		{"PROP_LOGGING_TYPE", 197, uint64(btypes.PROP_LOGGING_TYPE)}, {"PROP_RESTART_NOTIFICATION_RECIPIENTS", 202, uint64(btypes.PROP_RESTART_NOTIFICATION_RECIPIENTS)},
		{"PROP_TIME_OF_DEVICE_RESTART", 203, uint64(btypes.PROP_TIME_OF_DEVICE_RESTART)},
		{"PROP_TIME_SYNCHRONIZATION_INTERVAL", 204, uint64(btypes.PROP_TIME_SYNCHRONIZATION_INTERVAL)}, {"PROP_TRIGGER", 205, uint64(btypes.PROP_TRIGGER)},
		{"PROP_UTC_TIME_SYNCHRONIZATION_RECIPIENTS", 206, uint64(btypes.PROP_UTC_TIME_SYNCHRONIZATION_RECIPIENTS)}, {"PROP_NODE_SUBTYPE", 207, uint64(btypes.PROP_NODE_SUBTYPE)},
		{"PROP_NODE_TYPE", 208, uint64(btypes.PROP_NODE_TYPE)}, {"PROP_STRUCTURED_OBJECT_LIST", 209, uint64(btypes.PROP_STRUCTURED_OBJECT_LIST)},
		{"PROP_SUBORDINATE_ANNOTATIONS", 210, uint64(btypes.PROP_SUBORDINATE_ANNOTATIONS)}, {"PROP_SUBORDINATE_LIST", 211, uint64(btypes.PROP_SUBORDINATE_LIST)},
		{"PROP_ACTUAL_SHED_LEVEL", 212, uint64(btypes.PROP_ACTUAL_SHED_LEVEL)}, {"PROP_DUTY_WINDOW", 213, uint64(btypes.PROP_DUTY_WINDOW)},
		{"PROP_EXPECTED_SHED_LEVEL", 214, uint64(btypes.PROP_EXPECTED_SHED_LEVEL)}, {"PROP_FULL_DUTY_BASELINE", 215, uint64(btypes.PROP_FULL_DUTY_BASELINE)},
		{"PROP_REQUESTED_SHED_LEVEL", 218, uint64(btypes.PROP_REQUESTED_SHED_LEVEL)}, {"PROP_SHED_DURATION", 219, uint64(btypes.PROP_SHED_DURATION)},
		{"PROP_SHED_LEVEL_DESCRIPTIONS", 220, uint64(btypes.PROP_SHED_LEVEL_DESCRIPTIONS)}, {"PROP_SHED_LEVELS", 221, uint64(btypes.PROP_SHED_LEVELS)},
		{"PROP_STATE_DESCRIPTION", 222, uint64(btypes.PROP_STATE_DESCRIPTION)}, {"PROP_DOOR_ALARM_STATE", 226, uint64(btypes.PROP_DOOR_ALARM_STATE)},
		{"PROP_DOOR_EXTENDED_PULSE_TIME", 227, uint64(btypes.PROP_DOOR_EXTENDED_PULSE_TIME)}, {"PROP_DOOR_MEMBERS", 228, uint64(btypes.PROP_DOOR_MEMBERS)},
		{"PROP_DOOR_OPEN_TOO_LONG_TIME", 229, uint64(btypes.PROP_DOOR_OPEN_TOO_LONG_TIME)}, {"PROP_DOOR_PULSE_TIME", 230, uint64(btypes.PROP_DOOR_PULSE_TIME)},
		{"PROP_DOOR_STATUS", 231, uint64(btypes.PROP_DOOR_STATUS)}, {"PROP_DOOR_UNLOCK_DELAY_TIME", 232, uint64(btypes.PROP_DOOR_UNLOCK_DELAY_TIME)},
		{"PROP_LOCK_STATUS", 233, uint64(btypes.PROP_LOCK_STATUS)}, {"PROP_MASKED_ALARM_VALUES", 234, uint64(btypes.PROP_MASKED_ALARM_VALUES)},
		{"PROP_SECURED_STATUS", 235, uint64(btypes.PROP_SECURED_STATUS)}, {"PROP_ABSENTEE_LIMIT", 244, uint64(btypes.PROP_ABSENTEE_LIMIT)},
		{"PROP_ACCESS_ALARM_EVENTS", 245, uint64(btypes.PROP_ACCESS_ALARM_EVENTS)}, {"PROP_ACCESS_DOORS", 246, uint64(btypes.PROP_ACCESS_DOORS)},
		{"PROP_ACCESS_EVENT", 247, uint64(btypes.PROP_ACCESS_EVENT)}, {"PROP_ACCESS_EVENT_AUTHENTICATION_FACTOR", 248, uint64(btypes.PROP_ACCESS_EVENT_AUTHENTICATION_FACTOR)},
		{"PROP_ACCESS_EVENT_CREDENTIAL", 249, uint64(btypes.PROP_ACCESS_EVENT_CREDENTIAL)}, {"PROP_ACCESS_EVENT_TIME", 250, uint64(btypes.PROP_ACCESS_EVENT_TIME)},
		{"PROP_ACCESS_TRANSACTION_EVENTS", 251, uint64(btypes.PROP_ACCESS_TRANSACTION_EVENTS)}, {"PROP_ACCOMPANIMENT", 252, uint64(btypes.PROP_ACCOMPANIMENT)},
		{"PROP_ACCOMPANIMENT_TIME", 253, uint64(btypes.PROP_ACCOMPANIMENT_TIME)}, {"PROP_ACTIVATION_TIME", 254, uint64(btypes.PROP_ACTIVATION_TIME)},
		{"PROP_ACTIVE_AUTHENTICATION_POLICY", 255, uint64(btypes.PROP_ACTIVE_AUTHENTICATION_POLICY)},
		{"PROP_ASSIGNED_ACCESS_RIGHTS", 256, uint64(btypes.PROP_ASSIGNED_ACCESS_RIGHTS)}, {"PROP_AUTHENTICATION_FACTORS", 257, uint64(btypes.PROP_AUTHENTICATION_FACTORS)},
		{"PROP_AUTHENTICATION_POLICY_LIST", 258, uint64(btypes.PROP_AUTHENTICATION_POLICY_LIST)},
		{"PROP_AUTHENTICATION_POLICY_NAMES", 259, uint64(btypes.PROP_AUTHENTICATION_POLICY_NAMES)},
		{"PROP_AUTHENTICATION_STATUS", 260, uint64(btypes.PROP_AUTHENTICATION_STATUS)}, {"PROP_AUTHORIZATION_MODE", 261, uint64(btypes.PROP_AUTHORIZATION_MODE)},
		{"PROP_BELONGS_TO", 262, uint64(btypes.PROP_BELONGS_TO)}, {"PROP_CREDENTIAL_DISABLE", 263, uint64(btypes.PROP_CREDENTIAL_DISABLE)},
		{"PROP_CREDENTIAL_STATUS", 264, uint64(btypes.PROP_CREDENTIAL_STATUS)}, {"PROP_CREDENTIALS", 265, uint64(btypes.PROP_CREDENTIALS)},
		{"PROP_CREDENTIALS_IN_ZONE", 266, uint64(btypes.PROP_CREDENTIALS_IN_ZONE)}, {"PROP_DAYS_REMAINING", 267, uint64(btypes.PROP_DAYS_REMAINING)},
		{"PROP_ENTRY_POINTS", 268, uint64(btypes.PROP_ENTRY_POINTS)}, {"PROP_EXIT_POINTS", 269, uint64(btypes.PROP_EXIT_POINTS)},
		{"PROP_EXPIRATION_TIME", 270, uint64(btypes.PROP_EXPIRATION_TIME)}, {"PROP_EXTENDED_TIME_ENABLE", 271, uint64(btypes.PROP_EXTENDED_TIME_ENABLE)},
		{"PROP_FAILED_ATTEMPT_EVENTS", 272, uint64(btypes.PROP_FAILED_ATTEMPT_EVENTS)}, {"PROP_FAILED_ATTEMPTS", 273, uint64(btypes.PROP_FAILED_ATTEMPTS)},
		{"PROP_FAILED_ATTEMPTS_TIME", 274, uint64(btypes.PROP_FAILED_ATTEMPTS_TIME)}, {"PROP_LAST_ACCESS_EVENT", 275, uint64(btypes.PROP_LAST_ACCESS_EVENT)},
		{"PROP_LAST_ACCESS_POINT", 276, uint64(btypes.PROP_LAST_ACCESS_POINT)}, {"PROP_LAST_CREDENTIAL_ADDED", 277, uint64(btypes.PROP_LAST_CREDENTIAL_ADDED)},
		{"PROP_LAST_CREDENTIAL_ADDED_TIME", 278, uint64(btypes.PROP_LAST_CREDENTIAL_ADDED_TIME)},
		{"PROP_LAST_CREDENTIAL_REMOVED", 279, uint64(btypes.PROP_LAST_CREDENTIAL_REMOVED)},
		{"PROP_LAST_CREDENTIAL_REMOVED_TIME", 280, uint64(btypes.PROP_LAST_CREDENTIAL_REMOVED_TIME)}, {"PROP_LAST_USE_TIME", 281, uint64(btypes.PROP_LAST_USE_TIME)},
		{"PROP_LOCKOUT", 282, uint64(btypes.PROP_LOCKOUT)}, {"PROP_LOCKOUT_RELINQUISH_TIME", 283, uint64(btypes.PROP_LOCKOUT_RELINQUISH_TIME)},
		{"PROP_MASTER_EXEMPTION", 284, uint64(btypes.PROP_MASTER_EXEMPTION)}, {"PROP_MAX_FAILED_ATTEMPTS", 285, uint64(btypes.PROP_MAX_FAILED_ATTEMPTS)},
		{"PROP_MEMBERS", 286, uint64(btypes.PROP_MEMBERS)}, {"PROP_MUSTER_POINT", 287, uint64(btypes.PROP_MUSTER_POINT)},
		{"PROP_NEGATIVE_ACCESS_RULES", 288, uint64(btypes.PROP_NEGATIVE_ACCESS_RULES)},
		{"PROP_NUMBER_OF_AUTHENTICATION_POLICIES", 289, uint64(btypes.PROP_NUMBER_OF_AUTHENTICATION_POLICIES)},
		{"PROP_OCCUPANCY_COUNT", 290, uint64(btypes.PROP_OCCUPANCY_COUNT)}, {"PROP_OCCUPANCY_COUNT_ADJUST", 291, uint64(btypes.PROP_OCCUPANCY_COUNT_ADJUST)},
		{"PROP_OCCUPANCY_COUNT_ENABLE", 292, uint64(btypes.PROP_OCCUPANCY_COUNT_ENABLE)}, {"PROP_OCCUPANCY_EXEMPTION", 293, uint64(btypes.PROP_OCCUPANCY_EXEMPTION)},
		{"PROP_OCCUPANCY_LOWER_LIMIT", 294, uint64(btypes.PROP_OCCUPANCY_LOWER_LIMIT)},
		{"PROP_OCCUPANCY_LOWER_LIMIT_ENFORCED", 295, uint64(btypes.PROP_OCCUPANCY_LOWER_LIMIT_ENFORCED)}, {"PROP_OCCUPANCY_STATE", 296, uint64(btypes.PROP_OCCUPANCY_STATE)},
		{"PROP_OCCUPANCY_UPPER_LIMIT", 297, uint64(btypes.PROP_OCCUPANCY_UPPER_LIMIT)},
		{"PROP_OCCUPANCY_UPPER_LIMIT_ENFORCED", 298, uint64(btypes.PROP_OCCUPANCY_UPPER_LIMIT_ENFORCED)},
		{"PROP_PASSBACK_EXEMPTION", 299, uint64(btypes.PROP_PASSBACK_EXEMPTION)}, {"PROP_PASSBACK_MODE", 300, uint64(btypes.PROP_PASSBACK_MODE)},
		{"PROP_PASSBACK_TIMEOUT", 301, uint64(btypes.PROP_PASSBACK_TIMEOUT)}, {"PROP_POSITIVE_ACCESS_RULES", 302, uint64(btypes.PROP_POSITIVE_ACCESS_RULES)},
		{"PROP_REASON_FOR_DISABLE", 303, uint64(btypes.PROP_REASON_FOR_DISABLE)}, {"PROP_SUPPORTED_FORMATS", 304, uint64(btypes.PROP_SUPPORTED_FORMATS)},
		{"PROP_SUPPORTED_FORMAT_CLASSES", 305, uint64(btypes.PROP_SUPPORTED_FORMAT_CLASSES)}, {"PROP_THREAT_AUTHORITY", 306, uint64(btypes.PROP_THREAT_AUTHORITY)},
		{"PROP_THREAT_LEVEL", 307, uint64(btypes.PROP_THREAT_LEVEL)}, {"PROP_TRACE_FLAG", 308, uint64(btypes.PROP_TRACE_FLAG)},
		{"PROP_TRANSACTION_NOTIFICATION_CLASS", 309, uint64(btypes.PROP_TRANSACTION_NOTIFICATION_CLASS)},
		{"PROP_USER_EXTERNAL_IDENTIFIER", 310, uint64(btypes.PROP_USER_EXTERNAL_IDENTIFIER)},
		{"PROP_USER_INFORMATION_REFERENCE", 311, uint64(btypes.PROP_USER_INFORMATION_REFERENCE)}, {"PROP_USER_NAME", 317, uint64(btypes.PROP_USER_NAME)},
		{"PROP_USER_TYPE", 318, uint64(btypes.PROP_USER_TYPE)}, {"PROP_USES_REMAINING", 319, uint64(btypes.PROP_USES_REMAINING)},
		{"PROP_ZONE_FROM", 320, uint64(btypes.PROP_ZONE_FROM)}, {"PROP_ZONE_TO", 321, uint64(btypes.PROP_ZONE_TO)},
		{"PROP_ACCESS_EVENT_TAG", 322, uint64(btypes.PROP_ACCESS_EVENT_TAG)}, {"PROP_GLOBAL_IDENTIFIER", 323, uint64(btypes.PROP_GLOBAL_IDENTIFIER)},
		{"PROP_VERIFICATION_TIME", 326, uint64(btypes.PROP_VERIFICATION_TIME)}, {"PROP_BASE_DEVICE_SECURITY_POLICY", 327, uint64(btypes.PROP_BASE_DEVICE_SECURITY_POLICY)},
		{"PROP_DISTRIBUTION_KEY_REVISION", 328, uint64(btypes.PROP_DISTRIBUTION_KEY_REVISION)}, {"PROP_DO_NOT_HIDE", 329, uint64(btypes.PROP_DO_NOT_HIDE)},
		{"PROP_KEY_SETS", 330, uint64(btypes.PROP_KEY_SETS)}, {"PROP_LAST_KEY_SERVER", 331, uint64(btypes.PROP_LAST_KEY_SERVER)},
		{"PROP_NETWORK_ACCESS_SECURITY_POLICIES", 332, uint64(btypes.PROP_NETWORK_ACCESS_SECURITY_POLICIES)},
		{"PROP_PACKET_REORDER_TIME", 333, uint64(btypes.PROP_PACKET_REORDER_TIME)}, {"PROP_SECURITY_PDU_TIMEOUT", 334, uint64(btypes.PROP_SECURITY_PDU_TIMEOUT)},
		{"PROP_SECURITY_TIME_WINDOW", 335, uint64(btypes.PROP_SECURITY_TIME_WINDOW)},
		{"PROP_SUPPORTED_SECURITY_ALGORITHM", 336, uint64(btypes.PROP_SUPPORTED_SECURITY_ALGORITHM)},
		{"PROP_UPDATE_KEY_SET_TIMEOUT", 337, uint64(btypes.PROP_UPDATE_KEY_SET_TIMEOUT)}, {"PROP_BACKUP_AND_RESTORE_STATE", 338, uint64(btypes.PROP_BACKUP_AND_RESTORE_STATE)},
		{"PROP_BACKUP_PREPARATION_TIME", 339, uint64(btypes.PROP_BACKUP_PREPARATION_TIME)}, {"PROP_RESTORE_COMPLETION_TIME", 340, uint64(btypes.PROP_RESTORE_COMPLETION_TIME)},
		{"PROP_RESTORE_PREPARATION_TIME", 341, uint64(btypes.PROP_RESTORE_PREPARATION_TIME)}, {"PROP_BIT_MASK", 342, uint64(btypes.PROP_BIT_MASK)},
		{"PROP_BIT_TEXT", 343, uint64(btypes.PROP_BIT_TEXT)}, {"PROP_IS_UTC", 344, uint64(btypes.PROP_IS_UTC)}, {"PROP_GROUP_MEMBERS", 345, uint64(btypes.PROP_GROUP_MEMBERS)},
		{"PROP_GROUP_MEMBER_NAMES", 346, uint64(btypes.PROP_GROUP_MEMBER_NAMES)}, {"PROP_MEMBER_STATUS_FLAGS", 347, uint64(btypes.PROP_MEMBER_STATUS_FLAGS)},
		{"PROP_REQUESTED_UPDATE_INTERVAL", 348, uint64(btypes.PROP_REQUESTED_UPDATE_INTERVAL)}, {"PROP_COVU_PERIOD", 349, uint64(btypes.PROP_COVU_PERIOD)},
		{"PROP_COVU_RECIPIENTS", 350, uint64(btypes.PROP_COVU_RECIPIENTS)}, {"PROP_EVENT_MESSAGE_TEXTS", 351, uint64(btypes.PROP_EVENT_MESSAGE_TEXTS)},
		{"PROP_EVENT_MESSAGE_TEXTS_CONFIG", 352, uint64(btypes.PROP_EVENT_MESSAGE_TEXTS_CONFIG)},
		{"PROP_EVENT_DETECTION_ENABLE", 353, uint64(btypes.PROP_EVENT_DETECTION_ENABLE)}, {"PROP_EVENT_ALGORITHM_INHIBIT", 354, uint64(btypes.PROP_EVENT_ALGORITHM_INHIBIT)},
		{"PROP_EVENT_ALGORITHM_INHIBIT_REF", 355, uint64(btypes.PROP_EVENT_ALGORITHM_INHIBIT_REF)}, {"PROP_TIME_DELAY_NORMAL", 356, uint64(btypes.PROP_TIME_DELAY_NORMAL)},
		{"PROP_RELIABILITY_EVALUATION_INHIBIT", 357, uint64(btypes.PROP_RELIABILITY_EVALUATION_INHIBIT)}, {"PROP_FAULT_PARAMETERS", 358, uint64(btypes.PROP_FAULT_PARAMETERS)},
		{"PROP_FAULT_TYPE", 359, uint64(btypes.PROP_FAULT_TYPE)}, {"PROP_LOCAL_FORWARDING_ONLY", 360, uint64(btypes.PROP_LOCAL_FORWARDING_ONLY)},
		{"PROP_PROCESS_IDENTIFIER_FILTER", 361, uint64(btypes.PROP_PROCESS_IDENTIFIER_FILTER)}, {"PROP_SUBSCRIBED_RECIPIENTS", 362, uint64(btypes.PROP_SUBSCRIBED_RECIPIENTS)},
		{"PROP_PORT_FILTER", 363, uint64(btypes.PROP_PORT_FILTER)}, {"PROP_AUTHORIZATION_EXEMPTIONS", 364, uint64(btypes.PROP_AUTHORIZATION_EXEMPTIONS)},
		{"PROP_ALLOW_GROUP_DELAY_INHIBIT", 365, uint64(btypes.PROP_ALLOW_GROUP_DELAY_INHIBIT)}, {"PROP_CHANNEL_NUMBER", 366, uint64(btypes.PROP_CHANNEL_NUMBER)},
		{"PROP_CONTROL_GROUPS", 367, uint64(btypes.PROP_CONTROL_GROUPS)}, {"PROP_EXECUTION_DELAY", 368, uint64(btypes.PROP_EXECUTION_DELAY)},
		{"PROP_LAST_PRIORITY", 369, uint64(btypes.PROP_LAST_PRIORITY)}, {"PROP_WRITE_STATUS", 370, uint64(btypes.PROP_WRITE_STATUS)},
		{"PROP_PROPERTY_LIST", 371, uint64(btypes.PROP_PROPERTY_LIST)}, {"PROP_SERIAL_NUMBER", 372, uint64(btypes.PROP_SERIAL_NUMBER)},
		{"PROP_BLINK_WARN_ENABLE", 373, uint64(btypes.PROP_BLINK_WARN_ENABLE)}, {"PROP_DEFAULT_FADE_TIME", 374, uint64(btypes.PROP_DEFAULT_FADE_TIME)},
		{"PROP_DEFAULT_RAMP_RATE", 375, uint64(btypes.PROP_DEFAULT_RAMP_RATE)}, {"PROP_DEFAULT_STEP_INCREMENT", 376, uint64(btypes.PROP_DEFAULT_STEP_INCREMENT)},
		{"PROP_EGRESS_TIME", 377, uint64(btypes.PROP_EGRESS_TIME)}, {"PROP_IN_PROGRESS", 378, uint64(btypes.PROP_IN_PROGRESS)},
		{"PROP_INSTANTANEOUS_POWER", 379, uint64(btypes.PROP_INSTANTANEOUS_POWER)}, {"PROP_LIGHTING_COMMAND", 380, uint64(btypes.PROP_LIGHTING_COMMAND)},
		{"PROP_LIGHTING_COMMAND_DEFAULT_PRIORITY", 381, uint64(btypes.PROP_LIGHTING_COMMAND_DEFAULT_PRIORITY)},
		{"PROP_MAX_ACTUAL_VALUE", 382, uint64(btypes.PROP_MAX_ACTUAL_VALUE)}, {"PROP_MIN_ACTUAL_VALUE", 383, uint64(btypes.PROP_MIN_ACTUAL_VALUE)},
		{"PROP_POWER", 384, uint64(btypes.PROP_POWER)}, {"PROP_TRANSITION", 385, uint64(btypes.PROP_TRANSITION)}, {"PROP_EGRESS_ACTIVE", 386, uint64(btypes.PROP_EGRESS_ACTIVE)},
		{"PROP_INTERFACE_VALUE", 387, uint64(btypes.PROP_INTERFACE_VALUE)}, {"PROP_FAULT_HIGH_LIMIT", 388, uint64(btypes.PROP_FAULT_HIGH_LIMIT)},
		{"PROP_FAULT_LOW_LIMIT", 389, uint64(btypes.PROP_FAULT_LOW_LIMIT)}, {"PROP_LOW_DIFF_LIMIT", 390, uint64(btypes.PROP_LOW_DIFF_LIMIT)},
		{"PROP_STRIKE_COUNT", 391, uint64(btypes.PROP_STRIKE_COUNT)}, {"PROP_TIME_OF_STRIKE_COUNT_RESET", 392, uint64(btypes.PROP_TIME_OF_STRIKE_COUNT_RESET)},
		{"PROP_DEFAULT_TIMEOUT", 393, uint64(btypes.PROP_DEFAULT_TIMEOUT)}, {"PROP_INITIAL_TIMEOUT", 394, uint64(btypes.PROP_INITIAL_TIMEOUT)},
		{"PROP_LAST_STATE_CHANGE", 395, uint64(btypes.PROP_LAST_STATE_CHANGE)}, {"PROP_STATE_CHANGE_VALUES", 396, uint64(btypes.PROP_STATE_CHANGE_VALUES)},
		{"PROP_TIMER_RUNNING", 397, uint64(btypes.PROP_TIMER_RUNNING)}, {"PROP_TIMER_STATE", 398, uint64(btypes.PROP_TIMER_STATE)},
		{"PROP_APDU_LENGTH", 399, uint64(btypes.PROP_APDU_LENGTH)}, {"PROP_IP_ADDRESS", 400, uint64(btypes.PROP_IP_ADDRESS)},
		{"PROP_IP_DEFAULT_GATEWAY", 401, uint64(btypes.PROP_IP_DEFAULT_GATEWAY)}, {"PROP_IP_DHCP_ENABLE", 402, uint64(btypes.PROP_IP_DHCP_ENABLE)},
		{"PROP_IP_DHCP_LEASE_TIME", 403, uint64(btypes.PROP_IP_DHCP_LEASE_TIME)}, {"PROP_IP_DHCP_LEASE_TIME_REMAINING", 404, uint64(btypes.PROP_IP_DHCP_LEASE_TIME_REMAINING)},
		{"PROP_IP_DHCP_SERVER", 405, uint64(btypes.PROP_IP_DHCP_SERVER)}, {"PROP_IP_DNS_SERVER", 406, uint64(btypes.PROP_IP_DNS_SERVER)},
		{"PROP_BACNET_IP_GLOBAL_ADDRESS", 407, uint64(btypes.PROP_BACNET_IP_GLOBAL_ADDRESS)}, {"PROP_BACNET_IP_MODE", 408, uint64(btypes.PROP_BACNET_IP_MODE)},
		{"PROP_BACNET_IP_MULTICAST_ADDRESS", 409, uint64(btypes.PROP_BACNET_IP_MULTICAST_ADDRESS)},
		{"PROP_BACNET_IP_NAT_TRAVERSAL", 410, uint64(btypes.PROP_BACNET_IP_NAT_TRAVERSAL)}, {"PROP_IP_SUBNET_MASK", 411, uint64(btypes.PROP_IP_SUBNET_MASK)},
		{"PROP_BACNET_IP_UDP_PORT", 412, uint64(btypes.PROP_BACNET_IP_UDP_PORT)}, {"PROP_BBMD_ACCEPT_FD_REGISTRATIONS", 413, uint64(btypes.PROP_BBMD_ACCEPT_FD_REGISTRATIONS)},
		{"PROP_BBMD_BROADCAST_DISTRIBUTION_TABLE", 414, uint64(btypes.PROP_BBMD_BROADCAST_DISTRIBUTION_TABLE)},
		{"PROP_BBMD_FOREIGN_DEVICE_TABLE", 415, uint64(btypes.PROP_BBMD_FOREIGN_DEVICE_TABLE)}, {"PROP_CHANGES_PENDING", 416, uint64(btypes.PROP_CHANGES_PENDING)},
		{"PROP_COMMAND", 417, uint64(btypes.PROP_COMMAND)}, {"PROP_FD_BBMD_ADDRESS", 418, uint64(btypes.PROP_FD_BBMD_ADDRESS)},
		{"PROP_FD_SUBSCRIPTION_LIFETIME", 419, uint64(btypes.PROP_FD_SUBSCRIPTION_LIFETIME)}, {"PROP_LINK_SPEED", 420, uint64(btypes.PROP_LINK_SPEED)},
		{"PROP_LINK_SPEEDS", 421, uint64(btypes.PROP_LINK_SPEEDS)}, {"PROP_LINK_SPEED_AUTONEGOTIATE", 422, uint64(btypes.PROP_LINK_SPEED_AUTONEGOTIATE)},
		{"PROP_MAC_ADDRESS", 423, uint64(btypes.PROP_MAC_ADDRESS)}, {"PROP_NETWORK_INTERFACE_NAME", 424, uint64(btypes.PROP_NETWORK_INTERFACE_NAME)},
		{"PROP_NETWORK_NUMBER", 425, uint64(btypes.PROP_NETWORK_NUMBER)}, {"PROP_NETWORK_NUMBER_QUALITY", 426, uint64(btypes.PROP_NETWORK_NUMBER_QUALITY)},
		{"PROP_NETWORK_TYPE", 427, uint64(btypes.PROP_NETWORK_TYPE)}, {"PROP_ROUTING_TABLE", 428, uint64(btypes.PROP_ROUTING_TABLE)},
		{"PROP_VIRTUAL_MAC_ADDRESS_TABLE", 429, uint64(btypes.PROP_VIRTUAL_MAC_ADDRESS_TABLE)}, {"PROP_COMMAND_TIME_ARRAY", 430, uint64(btypes.PROP_COMMAND_TIME_ARRAY)},
		{"PROP_CURRENT_COMMAND_PRIORITY", 431, uint64(btypes.PROP_CURRENT_COMMAND_PRIORITY)}, {"PROP_LAST_COMMAND_TIME", 432, uint64(btypes.PROP_LAST_COMMAND_TIME)},
		{"PROP_VALUE_SOURCE", 433, uint64(btypes.PROP_VALUE_SOURCE)}, {"PROP_VALUE_SOURCE_ARRAY", 434, uint64(btypes.PROP_VALUE_SOURCE_ARRAY)},
		{"PROP_BACNET_IPV6_MODE", 435, uint64(btypes.PROP_BACNET_IPV6_MODE)}, {"PROP_IPV6_ADDRESS", 436, uint64(btypes.PROP_IPV6_ADDRESS)},
		{"PROP_IPV6_PREFIX_LENGTH", 437, uint64(btypes.PROP_IPV6_PREFIX_LENGTH)}, {"PROP_BACNET_IPV6_UDP_PORT", 438, uint64(btypes.PROP_BACNET_IPV6_UDP_PORT)},
		{"PROP_IPV6_DEFAULT_GATEWAY", 439, uint64(btypes.PROP_IPV6_DEFAULT_GATEWAY)},
		{"PROP_BACNET_IPV6_MULTICAST_ADDRESS", 440, uint64(btypes.PROP_BACNET_IPV6_MULTICAST_ADDRESS)}, {"PROP_IPV6_DNS_SERVER", 441, uint64(btypes.PROP_IPV6_DNS_SERVER)},
		{"PROP_IPV6_AUTO_ADDRESSING_ENABLE", 442, uint64(btypes.PROP_IPV6_AUTO_ADDRESSING_ENABLE)}, {"PROP_IPV6_DHCP_LEASE_TIME", 443, uint64(btypes.PROP_IPV6_DHCP_LEASE_TIME)},
		{"PROP_IPV6_DHCP_LEASE_TIME_REMAINING", 444, uint64(btypes.PROP_IPV6_DHCP_LEASE_TIME_REMAINING)}, {"PROP_IPV6_DHCP_SERVER", 445, uint64(btypes.PROP_IPV6_DHCP_SERVER)},
		{"PROP_IPV6_ZONE_INDEX", 446, uint64(btypes.PROP_IPV6_ZONE_INDEX)}, {"PROP_ASSIGNED_LANDING_CALLS", 447, uint64(btypes.PROP_ASSIGNED_LANDING_CALLS)},
		{"PROP_CAR_ASSIGNED_DIRECTION", 448, uint64(btypes.PROP_CAR_ASSIGNED_DIRECTION)}, {"PROP_CAR_DOOR_COMMAND", 449, uint64(btypes.PROP_CAR_DOOR_COMMAND)},
		{"PROP_CAR_DOOR_STATUS", 450, uint64(btypes.PROP_CAR_DOOR_STATUS)}, {"PROP_CAR_DOOR_TEXT", 451, uint64(btypes.PROP_CAR_DOOR_TEXT)},
		{"PROP_CAR_DOOR_ZONE", 452, uint64(btypes.PROP_CAR_DOOR_ZONE)}, {"PROP_CAR_DRIVE_STATUS", 453, uint64(btypes.PROP_CAR_DRIVE_STATUS)},
		{"PROP_CAR_LOAD", 454, uint64(btypes.PROP_CAR_LOAD)}, {"PROP_CAR_LOAD_Propertybtypes", 455, uint64(btypes.PROP_CAR_LOAD_Propertybtypes)},
		{"PROP_CAR_MODE", 456, uint64(btypes.PROP_CAR_MODE)}, {"PROP_CAR_MOVING_DIRECTION", 457, uint64(btypes.PROP_CAR_MOVING_DIRECTION)},
		{"PROP_CAR_POSITION", 458, uint64(btypes.PROP_CAR_POSITION)}, {"PROP_ELEVATOR_GROUP", 459, uint64(btypes.PROP_ELEVATOR_GROUP)},
		{"PROP_ENERGY_METER", 460, uint64(btypes.PROP_ENERGY_METER)}, {"PROP_ENERGY_METER_REF", 461, uint64(btypes.PROP_ENERGY_METER_REF)},
		{"PROP_ESCALATOR_MODE", 462, uint64(btypes.PROP_ESCALATOR_MODE)}, {"PROP_FAULT_SIGNALS", 463, uint64(btypes.PROP_FAULT_SIGNALS)},
		{"PROP_FLOOR_TEXT", 464, uint64(btypes.PROP_FLOOR_TEXT)}, {"PROP_GROUP_ID", 465, uint64(btypes.PROP_GROUP_ID)}, {"PROP_GROUP_MODE", 467, uint64(btypes.PROP_GROUP_MODE)},
		{"PROP_HIGHER_DECK", 468, uint64(btypes.PROP_HIGHER_DECK)}, {"PROP_INSTALLATION_ID", 469, uint64(btypes.PROP_INSTALLATION_ID)},
		{"PROP_LANDING_CALLS", 470, uint64(btypes.PROP_LANDING_CALLS)}, {"PROP_LANDING_CALL_CONTROL", 471, uint64(btypes.PROP_LANDING_CALL_CONTROL)},
		{"PROP_LANDING_DOOR_STATUS", 472, uint64(btypes.PROP_LANDING_DOOR_STATUS)}, {"PROP_LOWER_DECK", 473, uint64(btypes.PROP_LOWER_DECK)},
		{"PROP_MACHINE_ROOM_ID", 474, uint64(btypes.PROP_MACHINE_ROOM_ID)}, {"PROP_MAKING_CAR_CALL", 475, uint64(btypes.PROP_MAKING_CAR_CALL)},
		{"PROP_NEXT_STOPPING_FLOOR", 476, uint64(btypes.PROP_NEXT_STOPPING_FLOOR)}, {"PROP_OPERATION_DIRECTION", 477, uint64(btypes.PROP_OPERATION_DIRECTION)},
		{"PROP_PASSENGER_ALARM", 478, uint64(btypes.PROP_PASSENGER_ALARM)}, {"PROP_POWER_MODE", 479, uint64(btypes.PROP_POWER_MODE)},
		{"PROP_REGISTERED_CAR_CALL", 480, uint64(btypes.PROP_REGISTERED_CAR_CALL)},
		{"PROP_ACTIVE_COV_MULTIPLE_SUBSCRIPTIONS", 481, uint64(btypes.PROP_ACTIVE_COV_MULTIPLE_SUBSCRIPTIONS)}, {"PROP_PROTOCOL_LEVEL", 482, uint64(btypes.PROP_PROTOCOL_LEVEL)},
		{"PROP_REFERENCE_PORT", 483, uint64(btypes.PROP_REFERENCE_PORT)}, {"PROP_DEPLOYED_PROFILE_LOCATION", 484, uint64(btypes.PROP_DEPLOYED_PROFILE_LOCATION)},
		{"PROP_PROFILE_LOCATION", 485, uint64(btypes.PROP_PROFILE_LOCATION)}, {"PROP_TAGS", 486, uint64(btypes.PROP_TAGS)},
		{"PROP_SUBORDINATE_NODE_btypes", 487, uint64(btypes.PROP_SUBORDINATE_NODE_btypes)}, {"PROP_SUBORDINATE_TAGS", 488, uint64(btypes.PROP_SUBORDINATE_TAGS)},
		{"PROP_SUBORDINATE_RELATIONSHIPS", 489, uint64(btypes.PROP_SUBORDINATE_RELATIONSHIPS)},
		{"PROP_DEFAULT_SUBORDINATE_RELATIONSHIP", 490, uint64(btypes.PROP_DEFAULT_SUBORDINATE_RELATIONSHIP)}, {"PROP_REPRESENTS", 491, uint64(btypes.PROP_REPRESENTS)},
		{"MAX_BACNET_PROPERTY_ID", 4194303, uint64(btypes.MAX_BACNET_PROPERTY_ID)},
	},
	"object type": {
		{"AnalogInput", 0, uint64(btypes.AnalogInput)}, {"AnalogOutput", 1, uint64(btypes.AnalogOutput)}, {"AnalogValue", 2, uint64(btypes.AnalogValue)},
		{"BinaryInput", 3, uint64(btypes.BinaryInput)}, {"BinaryOutput", 4, uint64(btypes.BinaryOutput)}, {"BinaryValue", 5, uint64(btypes.BinaryValue)},
		{"DeviceType", 8, uint64(btypes.DeviceType)}, {"File", 10, uint64(btypes.File)}, {"MultiStateInput", 13, uint64(btypes.MultiStateInput)},
		{"MultiStateOutput", 14, uint64(btypes.MultiStateOutput)}, {"NotificationClass", 15, uint64(btypes.NotificationClass)},
		{"MultiStateValue", 19, uint64(btypes.MultiStateValue)}, {"TrendLog", 20, uint64(btypes.TrendLog)}, {"CharacterString", 40, uint64(btypes.CharacterString)},
	},
	"object type constant": {
		{"TypeAnalogInput", 0, uint64(btypes.TypeAnalogInput)}, {"TypeAnalogOutput", 1, uint64(btypes.TypeAnalogOutput)}, {"TypeAnalogValue", 2, uint64(btypes.TypeAnalogValue)},
		{"TypeBinaryInput", 3, uint64(btypes.TypeBinaryInput)}, {"TypeBinaryOutput", 4, uint64(btypes.TypeBinaryOutput)}, {"TypeBinaryValue", 5, uint64(btypes.TypeBinaryValue)},
		{"TypeDeviceType", 8, uint64(btypes.TypeDeviceType)}, {"TypeFile", 10, uint64(btypes.TypeFile)}, {"TypeMultiStateInput", 13, uint64(btypes.TypeMultiStateInput)},
		{"TypeMultiStateOutput", 14, uint64(btypes.TypeMultiStateOutput)}, {"TypeNotificationClass", 15, uint64(btypes.TypeNotificationClass)},
		{"TypeMultiStateValue", 19, uint64(btypes.TypeMultiStateValue)}, {"TypeTrendLog", 20, uint64(btypes.TypeTrendLog)},
		{"TypeCharacterString", 40, uint64(btypes.TypeCharacterString)},
	},
	"confirmed service": {
		{"ServiceConfirmedAcknowledgeAlarm", 0, uint64(btypes.ServiceConfirmedAcknowledgeAlarm)},
		{"ServiceConfirmedCOVNotification", 1, uint64(btypes.ServiceConfirmedCOVNotification)},
		{"ServiceConfirmedEventNotification", 2, uint64(btypes.ServiceConfirmedEventNotification)},
		{"ServiceConfirmedGetAlarmSummary", 3, uint64(btypes.ServiceConfirmedGetAlarmSummary)},
		{"ServiceConfirmedGetEnrollmentSummary", 4, uint64(btypes.ServiceConfirmedGetEnrollmentSummary)},
		{"ServiceConfirmedSubscribeCOV", 5, uint64(btypes.ServiceConfirmedSubscribeCOV)}, {"ServiceConfirmedAtomicReadFile", 6, uint64(btypes.ServiceConfirmedAtomicReadFile)},
		{"ServiceConfirmedAtomicWriteFile", 7, uint64(btypes.ServiceConfirmedAtomicWriteFile)},
		{"ServiceConfirmedAddListElement", 8, uint64(btypes.ServiceConfirmedAddListElement)},
		{"ServiceConfirmedRemoveListElement", 9, uint64(btypes.ServiceConfirmedRemoveListElement)},
		{"ServiceConfirmedCreateObject", 10, uint64(btypes.ServiceConfirmedCreateObject)}, {"ServiceConfirmedDeleteObject", 11, uint64(btypes.ServiceConfirmedDeleteObject)},
		{"ServiceConfirmedReadProperty", 12, uint64(btypes.ServiceConfirmedReadProperty)},
		{"ServiceConfirmedReadPropConditional", 13, uint64(btypes.ServiceConfirmedReadPropConditional)},
		{"ServiceConfirmedReadPropMultiple", 14, uint64(btypes.ServiceConfirmedReadPropMultiple)},
		{"ServiceConfirmedWriteProperty", 15, uint64(btypes.ServiceConfirmedWriteProperty)},
		{"ServiceConfirmedWritePropMultiple", 16, uint64(btypes.ServiceConfirmedWritePropMultiple)},
		{"ServiceConfirmedDeviceCommunicationControl", 17, uint64(btypes.ServiceConfirmedDeviceCommunicationControl)},
		{"ServiceConfirmedPrivateTransfer", 18, uint64(btypes.ServiceConfirmedPrivateTransfer)}, {"ServiceConfirmedTextMessage", 19, uint64(btypes.ServiceConfirmedTextMessage)},
		{"ServiceConfirmedReinitializeDevice", 20, uint64(btypes.ServiceConfirmedReinitializeDevice)}, {"ServiceConfirmedVTOpen", 21, uint64(btypes.ServiceConfirmedVTOpen)},
		{"ServiceConfirmedVTClose", 22, uint64(btypes.ServiceConfirmedVTClose)}, {"ServiceConfirmedVTData", 23, uint64(btypes.ServiceConfirmedVTData)},
		{"ServiceConfirmedAuthenticate", 24, uint64(btypes.ServiceConfirmedAuthenticate)}, {"ServiceConfirmedRequestKey", 25, uint64(btypes.ServiceConfirmedRequestKey)},
		{"ServiceConfirmedReadRange", 26, uint64(btypes.ServiceConfirmedReadRange)},
		{"ServiceConfirmedLifeSafetyOperation", 27, uint64(btypes.ServiceConfirmedLifeSafetyOperation)},
		{"ServiceConfirmedSubscribeCOVProperty", 28, uint64(btypes.ServiceConfirmedSubscribeCOVProperty)},
		{"ServiceConfirmedGetEventInformation", 29, uint64(btypes.ServiceConfirmedGetEventInformation)},
	},
	"unconfirmed service": {
		{"ServiceUnconfirmedIAm", 0, uint64(btypes.ServiceUnconfirmedIAm)}, {"ServiceUnconfirmedIHave", 1, uint64(btypes.ServiceUnconfirmedIHave)},
		{"ServiceUnconfirmedCOVNotification", 2, uint64(btypes.ServiceUnconfirmedCOVNotification)},
		{"ServiceUnconfirmedEventNotification", 3, uint64(btypes.ServiceUnconfirmedEventNotification)},
		{"ServiceUnconfirmedPrivateTransfer", 4, uint64(btypes.ServiceUnconfirmedPrivateTransfer)},
		{"ServiceUnconfirmedTextMessage", 5, uint64(btypes.ServiceUnconfirmedTextMessage)}, {"ServiceUnconfirmedTimeSync", 6, uint64(btypes.ServiceUnconfirmedTimeSync)},
		{"ServiceUnconfirmedWhoHas", 7, uint64(btypes.ServiceUnconfirmedWhoHas)}, {"ServiceUnconfirmedWhoIs", 8, uint64(btypes.ServiceUnconfirmedWhoIs)},
		{"ServiceUnconfirmedUTCTimeSync", 9, uint64(btypes.ServiceUnconfirmedUTCTimeSync)}, {"ServiceUnconfirmedWriteGroup", 10, uint64(btypes.ServiceUnconfirmedWriteGroup)},
		{"MaxServiceUnconfirmed", 11, uint64(btypes.MaxServiceUnconfirmed)},
	},
	"message type": {
		{"ConfirmedServiceRequest", 0, uint64(btypes.ConfirmedServiceRequest)}, {"UnconfirmedServiceRequest", 16, uint64(btypes.UnconfirmedServiceRequest)},
		{"SimpleAck", 32, uint64(btypes.SimpleAck)}, {"ComplexAck", 48, uint64(btypes.ComplexAck)}, {"SegmentAck", 64, uint64(btypes.SegmentAck)},
		{"Error", 80, uint64(btypes.Error)}, {"Reject", 96, uint64(btypes.Reject)}, {"Abort", 112, uint64(btypes.Abort)},
	},
	"link function": {
		{"BacFuncResult", 0, uint64(btypes.BacFuncResult)}, {"BacFuncWriteBroadcastDistributionTable", 1, uint64(btypes.BacFuncWriteBroadcastDistributionTable)},
		{"BacFuncBroadcastDistributionTable", 2, uint64(btypes.BacFuncBroadcastDistributionTable)},
		{"BacFuncBroadcastDistributionTableAck", 3, uint64(btypes.BacFuncBroadcastDistributionTableAck)}, {"BacFuncForwardedNPDU", 4, uint64(btypes.BacFuncForwardedNPDU)},
		{"BacFuncUnicast", 10, uint64(btypes.BacFuncUnicast)}, {"BacFuncBroadcast", 11, uint64(btypes.BacFuncBroadcast)},
	},
	"priority": {
		{"Normal", 0, uint64(btypes.Normal)}, {"Urgent", 1, uint64(btypes.Urgent)}, {"CriticalEquipment", 2, uint64(btypes.CriticalEquipment)},
		{"LifeSafety", 3, uint64(btypes.LifeSafety)},
	},
}
