package main

import (
	"github.com/NubeDev/bacnet/btypes/bacerr"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/btypes/segmentation"
	"github.com/NubeDev/bacnet/btypes/units"
)

// The numbers of the standard (135-2020, clauses 21 and 6.2.4) under the names the library uses for them.

var stdClasses = map[uint32]string{
	0: "DeviceError", 1: "ObjectError", 2: "PropertyError", 3: "ResourcesError", 4: "SecurityError", 5: "ServicesError", 6: "VTError", 7: "CommunicationError",
}

var stdCodes = map[uint32]string{
	0: "Other", 1: "AuthenticationFailed", 2: "ConfigurationInProgress", 3: "DeviceBusy", 4: "DynamicCreationNotSupported", 5: "FileAccessDenied",
	6: "IncompatibleSecurityLevels", 7: "InconsistentParameters", 8: "InconsistentSelectionCriterion", 9: "InvalidDataType", 10: "InvalidFileAccessMethod",
	11: "InvalidFileStartPosition", 12: "InvalidOperatorName", 13: "InvalidParameterDataType", 14: "InvalidTimeStamp", 15: "KeyGenerationError",
	16: "MissingRequiredParameter", 17: "NoObjectsOfSpecifiedType", 18: "NoSpaceForObject", 19: "NoSpaceToAddListElement", 20: "NoSpaceToWriteProperty",
	21: "NoVtSessionsAvailable", 22: "PropertyIsNotAList", 23: "ObjectDeletionNotPermitted", 24: "ObjectIdentifierAlreadyExists", 25: "OperationalProblem",
	26: "PasswordFailure", 27: "ReadAccessDenied", 28: "SecurityNotSupported", 29: "ServiceRequestDenied", 30: "Timeout", 31: "UnknownObject", 32: "UnknownProperty",
	34: "UnknownVtClass", 35: "UnknownVtSession", 36: "UnsupportedObjectType", 37: "ValueOutOfRange", 38: "VtSessionAlreadyClosed", 39: "VtSessionTerminationFailure",
	40: "WriteAccessDenied", 41: "CharacterSetNotSupported", 42: "InvalidArrayIndex", 43: "CovSubscriptionFailed", 44: "NotCovProperty",
	45: "OptionalFunctionalityNotSupported", 46: "InvalidConfigurationData", 47: "DatatypeNotSupported", 48: "DuplicateName", 49: "DuplicateObjectID",
	50: "PropertyIsNotAnArray", 51: "AbortBufferOverflow", 52: "AbortInvalidApduInThisState", 53: "AbortPreemptedByHigherPriorityTask", 54: "AbortSegmentationNotSupported",
	55: "AbortProprietary", 56: "AbortOther", 57: "InvalidTag", 58: "NetworkDown", 59: "RejectBufferOverflow", 60: "RejectInconsistentParameters",
	61: "RejectInvalidParameterDataType", 62: "RejectInvalidTag", 63: "RejectMissingRequiredParameter", 64: "RejectParameterOutOfRange", 65: "RejectTooManyArguments",
	66: "RejectUndefinedEnumeration", 67: "RejectUnrecognizedService", 68: "RejectProprietary", 69: "RejectOther", 70: "UnknownDevice", 71: "UnknownRoute",
	72: "ValueNotInitialized", 73: "InvalidEventState", 74: "NoAlarmConfigured", 75: "LogBufferFull", 76: "LoggedValuePurged", 77: "NoPropertySpecified",
	78: "NotConfiguredForTriggeredLogging", 79: "UnknownSubscription", 80: "ParameterOutOfRange", 81: "ListElementNotFound", 82: "Busy", 83: "CommunicationDisabled",
	84: "Success", 85: "AccessDenied", 86: "BadDestinationAddress", 87: "BadDestinationDeviceID", 88: "BadSignature", 89: "BadSourceAddress", 90: "BadTimestamp",
	91: "CannotUseKey", 92: "CannotVerifyMessageID", 93: "CorrectKeyRevision", 94: "DestinationDeviceIDRequired", 95: "DuplicateMessage", 96: "EncryptionNotConfigured",
	97: "EncryptionRequired", 98: "IncorrectKey", 99: "InvalidKeyData", 100: "KeyUpdateInProgress", 101: "MalformedMessage", 102: "NotKeyServer",
	103: "SecurityNotConfigured", 104: "SourceSecurityRequired", 105: "TooManyKeys", 106: "UnknownAuthenticationType", 107: "UnknownKey", 108: "UnknownKeyRevision",
	109: "UnknownSourceMessage", 110: "NotRouterToDnet", 111: "RouterBusy", 112: "UnknownNetworkMessage", 113: "MessageTooLong", 114: "SecurityErrorCode",
	115: "AddressingError", 116: "WriteBdtFailed", 117: "ReadBdtFailed", 118: "RegisterForeignDeviceFailed", 119: "ReadFdtFailed", 120: "DeleteFdtEntryFailed",
	121: "DistributeBroadcastFailed", 122: "UnknownFileSize", 123: "AbortApduTooLong", 124: "AbortApplicationExceededReplyTime", 125: "AbortOutOfResources",
	126: "AbortTsmTimeout", 127: "AbortWindowSizeOutOfRange", 128: "FileFull", 129: "InconsistentConfiguration", 130: "InconsistentObjectType", 131: "InternalError",
	132: "NotConfigured", 133: "OutOfMemory", 134: "ValueTooLong", 135: "AbortInsufficientSecurity", 136: "AbortSecurityError",
}

var stdUnits = map[uint32]string{
	0: "SquareMeters", 1: "SquareFeet", 2: "Milliamperes", 3: "Amperes", 4: "Ohms", 5: "Volts", 6: "Kilovolts", 7: "Megavolts", 8: "VoltAmperes", 9: "KilovoltAmperes",
	10: "MegavoltAmperes", 11: "VoltAmperesReactive", 12: "KilovoltAmperesReactive", 13: "MegavoltAmperesReactive", 14: "DegreesPhase", 15: "PowerFactor", 16: "Joules",
	17: "Kilojoules", 18: "WattHours", 19: "KilowattHours", 20: "Btus", 21: "Therms", 22: "TonHours", 23: "JoulesPerKilogramDryAir", 24: "BtusPerPoundDryAir",
	25: "CyclesPerHour", 26: "CyclesPerMinute", 27: "Hertz", 28: "GramsOfWaterPerKilogramDryAir", 29: "PercentRelativeHumidity", 30: "Millimeters", 31: "Meters",
	32: "Inches", 33: "Feet", 34: "WattsPerSquareFoot", 35: "WattsPerSquareMeter", 36: "Lumens", 37: "Luxes", 38: "FootCandles", 39: "Kilograms", 40: "PoundsMass",
	41: "Tons", 42: "KilogramsPerSecond", 43: "KilogramsPerMinute", 44: "KilogramsPerHour", 45: "PoundsMassPerMinute", 46: "PoundsMassPerHour", 47: "Watts", 48: "Kilowatts",
	49: "Megawatts", 50: "BtusPerHour", 51: "Horsepower", 52: "TonsRefrigeration", 53: "Pascals", 54: "Kilopascals", 55: "Bars", 56: "PoundsForcePerSquareInch",
	57: "CentimetersOfWater", 58: "InchesOfWater", 59: "MillimetersOfMercury", 60: "CentimetersOfMercury", 61: "InchesOfMercury", 62: "DegreesCelsius", 63: "DegreesKelvin",
	64: "DegreesFahrenheit", 65: "DegreeDaysCelsius", 66: "DegreeDaysFahrenheit", 67: "Years", 68: "Months", 69: "Weeks", 70: "Days", 71: "Hours", 72: "Minutes",
	73: "Seconds", 74: "MetersPerSecond", 75: "KilometersPerHour", 76: "FeetPerSecond", 77: "FeetPerMinute", 78: "MilesPerHour", 79: "CubicFeet", 80: "CubicMeters",
	81: "ImperialGallons", 82: "Liters", 83: "UsGallons", 84: "CubicFeetPerMinute", 85: "CubicMetersPerSecond", 86: "ImperialGallonsPerMinute", 87: "LitersPerSecond",
	88: "LitersPerMinute", 89: "USGallonsPerMinute", 90: "DegreesAngular", 91: "DegreesCelsiusPerHour", 92: "DegreesCelsiusPerMinute", 93: "DegreesFahrenheitPerHour",
	94: "DegreesFahrenheitPerMinute", 95: "NoUnits", 96: "PartsPerMillion", 97: "PartsPerBillion", 98: "Percent", 99: "PercentPerSecond", 100: "PerMinute", 101: "PerSecond",
	102: "PsiPerDegreeFahrenheit", 103: "Radians", 104: "RevolutionsPerMinute", 115: "SquareInches", 116: "SquareCentimeters", 117: "BtusPerPound", 118: "Centimeters",
	119: "PoundsMassPerSecond", 120: "DeltaDegreesFahrenheit", 121: "DeltaDegreesKelvin", 122: "Kilohms", 123: "Megohms", 124: "Millivolts", 125: "KilojoulesPerKilogram",
	126: "Megajoules", 127: "JoulesPerDegreeKelvin", 128: "JoulesPerKilogramDegreeKelvin", 129: "Kilohertz", 130: "Megahertz", 131: "PerHour", 132: "Milliwatts",
	133: "Hectopascals", 134: "Millibars", 135: "CubicMetersPerHour", 136: "LitersPerHour", 137: "KwHoursPerSquareMeter", 138: "KwHoursPerSquareFoot",
	139: "MegajoulesPerSquareMeter", 140: "MegajoulesPerSquareFoot", 141: "WattsPerSquareMeterDegreeKelvin", 142: "CubicFeetPerSecond", 143: "PercentObscurationPerFoot",
	144: "PercentObscurationPerMeter", 145: "Milliohms", 146: "MegawattHours", 147: "KiloBtus", 148: "MegaBtus", 149: "KilojoulesPerKilogramDryAir",
	150: "MegajoulesPerKilogramDryAir", 151: "KilojoulesPerDegreeKelvin", 152: "MegajoulesPerDegreeKelvin", 153: "Newton", 154: "GramsPerSecond", 155: "GramsPerMinute",
	156: "TonsPerHour", 157: "KiloBtusPerHour", 158: "HundredthsSeconds", 159: "Milliseconds", 160: "NewtonMeters", 161: "MillimetersPerSecond", 162: "MillimetersPerMinute",
	163: "MetersPerMinute", 164: "MetersPerHour", 165: "CubicMetersPerMinute", 166: "MetersPerSecondPerSecond", 167: "AmperesPerMeter", 168: "AmperesPerSquareMeter",
	169: "AmpereSquareMeters", 170: "Farads", 171: "Henrys", 172: "OhmMeters", 173: "Siemens", 174: "SiemensPerMeter", 175: "Teslas", 176: "VoltsPerDegreeKelvin",
	177: "VoltsPerMeter", 178: "Webers", 179: "Candelas", 180: "CandelasPerSquareMeter", 181: "DegreesKelvinPerHour", 182: "DegreesKelvinPerMinute", 183: "JouleSeconds",
	184: "RadiansPerSecond", 185: "SquareMetersPerNewton", 186: "KilogramsPerCubicMeter", 187: "NewtonSeconds", 188: "NewtonsPerMeter", 189: "WattsPerMeterPerDegreeKelvin",
	190: "Microsiemens", 191: "CubicFeetPerHour", 192: "USGallonsPerHour", 193: "Kilometers", 194: "Micrometers", 195: "Grams", 196: "Milligrams", 197: "Milliliters",
	198: "MillilitersPerSecond", 199: "Decibels", 200: "DecibelsMillivolt", 201: "DecibelsVolt", 202: "Millisiemens", 203: "WattHoursReactive", 204: "KilowattHoursReactive",
	205: "MegawattHoursReactive", 206: "MillimetersOfWater", 207: "PerMille", 208: "GramsPerGram", 209: "KilogramsPerKilogram", 210: "GramsPerKilogram",
	211: "MilligramsPerGram", 212: "MilligramsPerKilogram", 213: "GramsPerMilliliter", 214: "GramsPerLiter", 215: "MilligramsPerLiter", 216: "MicrogramsPerLiter",
	217: "GramsPerCubicMeter", 218: "MilligramsPerCubicMeter", 219: "MicrogramsPerCubicMeter", 220: "NanogramsPerCubicMeter", 221: "GramsPerCubicCentimeter",
	222: "Becquerels", 224: "Megabecquerels", 225: "Gray", 226: "Milligray", 227: "Microgray", 228: "Sieverts", 229: "Millisieverts", 230: "Microsieverts",
	231: "MicrosievertsPerHour", 232: "DecibelsA", 233: "NephelometricTurbidityUnit", 234: "Ph", 235: "GramsPerSquareMeter", 236: "MinutesPerDegreeKelvin",
}

var stdSegmentation = map[uint32]string{
	0: "SegmentedBoth", 1: "SegmentedTransmit", 2: "SegmentedReceive", 3: "NoSegmentation",
}

var stdNetworkMessages = map[uint32]string{
	0: "WhoIsRouterToNetwork", 1: "IamRouterToNetwork", 18: "WhatIsNetworkNumber", 19: "NetworkIs",
}

// The numbers the library gives to these names.

var libClasses = map[string]uint32{
	"DeviceError": uint32(bacerr.DeviceError), "ObjectError": uint32(bacerr.ObjectError), "PropertyError": uint32(bacerr.PropertyError),
	"ResourcesError": uint32(bacerr.ResourcesError), "SecurityError": uint32(bacerr.SecurityError), "ServicesError": uint32(bacerr.ServicesError),
	"VTError": uint32(bacerr.VTError), "CommunicationError": uint32(bacerr.CommunicationError),
}

var libCodes = map[string]uint32{
	"Other": uint32(bacerr.Other), "AuthenticationFailed": uint32(bacerr.AuthenticationFailed), "ConfigurationInProgress": uint32(bacerr.ConfigurationInProgress),
	"DeviceBusy": uint32(bacerr.DeviceBusy), "DynamicCreationNotSupported": uint32(bacerr.DynamicCreationNotSupported), "FileAccessDenied": uint32(bacerr.FileAccessDenied),
	"IncompatibleSecurityLevels": uint32(bacerr.IncompatibleSecurityLevels), "InconsistentParameters": uint32(bacerr.InconsistentParameters),
	"InconsistentSelectionCriterion": uint32(bacerr.InconsistentSelectionCriterion), "InvalidDataType": uint32(bacerr.InvalidDataType),
	"InvalidFileAccessMethod": uint32(bacerr.InvalidFileAccessMethod), "InvalidFileStartPosition": uint32(bacerr.InvalidFileStartPosition),
	"InvalidOperatorName": uint32(bacerr.InvalidOperatorName), "InvalidParameterDataType": uint32(bacerr.InvalidParameterDataType),
	"InvalidTimeStamp": uint32(bacerr.InvalidTimeStamp), "KeyGenerationError": uint32(bacerr.KeyGenerationError),
	"MissingRequiredParameter": uint32(bacerr.MissingRequiredParameter), "NoObjectsOfSpecifiedType": uint32(bacerr.NoObjectsOfSpecifiedType),
	"NoSpaceForObject": uint32(bacerr.NoSpaceForObject), "NoSpaceToAddListElement": uint32(bacerr.NoSpaceToAddListElement),
	"NoSpaceToWriteProperty": uint32(bacerr.NoSpaceToWriteProperty), "NoVtSessionsAvailable": uint32(bacerr.NoVtSessionsAvailable),
	"PropertyIsNotAList": uint32(bacerr.PropertyIsNotAList), "ObjectDeletionNotPermitted": uint32(bacerr.ObjectDeletionNotPermitted),
	"ObjectIdentifierAlreadyExists": uint32(bacerr.ObjectIdentifierAlreadyExists), "OperationalProblem": uint32(bacerr.OperationalProblem),
	"PasswordFailure": uint32(bacerr.PasswordFailure), "ReadAccessDenied": uint32(bacerr.ReadAccessDenied), "SecurityNotSupported": uint32(bacerr.SecurityNotSupported),
	"ServiceRequestDenied": uint32(bacerr.ServiceRequestDenied), "Timeout": uint32(bacerr.Timeout), "UnknownObject": uint32(bacerr.UnknownObject),
	"UnknownProperty": uint32(bacerr.UnknownProperty), "UnknownVtClass": uint32(bacerr.UnknownVtClass), "UnknownVtSession": uint32(bacerr.UnknownVtSession),
	"UnsupportedObjectType": uint32(bacerr.UnsupportedObjectType), "ValueOutOfRange": uint32(bacerr.ValueOutOfRange),
	"VtSessionAlreadyClosed": uint32(bacerr.VtSessionAlreadyClosed), "VtSessionTerminationFailure": uint32(bacerr.VtSessionTerminationFailure),
	"WriteAccessDenied": uint32(bacerr.WriteAccessDenied), "CharacterSetNotSupported": uint32(bacerr.CharacterSetNotSupported),
	"InvalidArrayIndex": uint32(bacerr.InvalidArrayIndex), "CovSubscriptionFailed": uint32(bacerr.CovSubscriptionFailed), "NotCovProperty": uint32(bacerr.NotCovProperty),
	"OptionalFunctionalityNotSupported": uint32(bacerr.OptionalFunctionalityNotSupported), "InvalidConfigurationData": uint32(bacerr.InvalidConfigurationData),
	"DatatypeNotSupported": uint32(bacerr.DatatypeNotSupported), "DuplicateName": uint32(bacerr.DuplicateName), "DuplicateObjectID": uint32(bacerr.DuplicateObjectID),
	"PropertyIsNotAnArray": uint32(bacerr.PropertyIsNotAnArray), "AbortBufferOverflow": uint32(bacerr.AbortBufferOverflow),
	"AbortInvalidApduInThisState": uint32(bacerr.AbortInvalidApduInThisState), "AbortPreemptedByHigherPriorityTask": uint32(bacerr.AbortPreemptedByHigherPriorityTask),
	"AbortSegmentationNotSupported": uint32(bacerr.AbortSegmentationNotSupported), "AbortProprietary": uint32(bacerr.AbortProprietary),
	"AbortOther": uint32(bacerr.AbortOther), "InvalidTag": uint32(bacerr.InvalidTag), "NetworkDown": uint32(bacerr.NetworkDown),
	"RejectBufferOverflow": uint32(bacerr.RejectBufferOverflow), "RejectInconsistentParameters": uint32(bacerr.RejectInconsistentParameters),
	"RejectInvalidParameterDataType": uint32(bacerr.RejectInvalidParameterDataType), "RejectInvalidTag": uint32(bacerr.RejectInvalidTag),
	"RejectMissingRequiredParameter": uint32(bacerr.RejectMissingRequiredParameter), "RejectParameterOutOfRange": uint32(bacerr.RejectParameterOutOfRange),
	"RejectTooManyArguments": uint32(bacerr.RejectTooManyArguments), "RejectUndefinedEnumeration": uint32(bacerr.RejectUndefinedEnumeration),
	"RejectUnrecognizedService": uint32(bacerr.RejectUnrecognizedService), "RejectProprietary": uint32(bacerr.RejectProprietary), "RejectOther": uint32(bacerr.RejectOther),
	"UnknownDevice": uint32(bacerr.UnknownDevice), "UnknownRoute": uint32(bacerr.UnknownRoute), "ValueNotInitialized": uint32(bacerr.ValueNotInitialized),
	"InvalidEventState": uint32(bacerr.InvalidEventState), "NoAlarmConfigured": uint32(bacerr.NoAlarmConfigured), "LogBufferFull": uint32(bacerr.LogBufferFull),
	"LoggedValuePurged": uint32(bacerr.LoggedValuePurged), "NoPropertySpecified": uint32(bacerr.NoPropertySpecified),
	"NotConfiguredForTriggeredLogging": uint32(bacerr.NotConfiguredForTriggeredLogging), "UnknownSubscription": uint32(bacerr.UnknownSubscription),
	"ParameterOutOfRange": uint32(bacerr.ParameterOutOfRange), "ListElementNotFound": uint32(bacerr.ListElementNotFound), "Busy": uint32(bacerr.Busy),
	"CommunicationDisabled": uint32(bacerr.CommunicationDisabled), "Success": uint32(bacerr.Success), "AccessDenied": uint32(bacerr.AccessDenied),
	"BadDestinationAddress": uint32(bacerr.BadDestinationAddress), "BadDestinationDeviceID": uint32(bacerr.BadDestinationDeviceID),
	"BadSignature": uint32(bacerr.BadSignature), "BadSourceAddress": uint32(bacerr.BadSourceAddress), "BadTimestamp": uint32(bacerr.BadTimestamp),
	"CannotUseKey": uint32(bacerr.CannotUseKey), "CannotVerifyMessageID": uint32(bacerr.CannotVerifyMessageID), "CorrectKeyRevision": uint32(bacerr.CorrectKeyRevision),
	"DestinationDeviceIDRequired": uint32(bacerr.DestinationDeviceIDRequired), "DuplicateMessage": uint32(bacerr.DuplicateMessage),
	"EncryptionNotConfigured": uint32(bacerr.EncryptionNotConfigured), "EncryptionRequired": uint32(bacerr.EncryptionRequired), "IncorrectKey": uint32(bacerr.IncorrectKey),
	"InvalidKeyData": uint32(bacerr.InvalidKeyData), "KeyUpdateInProgress": uint32(bacerr.KeyUpdateInProgress), "MalformedMessage": uint32(bacerr.MalformedMessage),
	"NotKeyServer": uint32(bacerr.NotKeyServer), "SecurityNotConfigured": uint32(bacerr.SecurityNotConfigured),
	"SourceSecurityRequired": uint32(bacerr.SourceSecurityRequired), "TooManyKeys": uint32(bacerr.TooManyKeys),
	"UnknownAuthenticationType": uint32(bacerr.UnknownAuthenticationType), "UnknownKey": uint32(bacerr.UnknownKey), "UnknownKeyRevision": uint32(bacerr.UnknownKeyRevision),
	"UnknownSourceMessage": uint32(bacerr.UnknownSourceMessage), "NotRouterToDnet": uint32(bacerr.NotRouterToDnet), "RouterBusy": uint32(bacerr.RouterBusy),
	"UnknownNetworkMessage": uint32(bacerr.UnknownNetworkMessage), "MessageTooLong": uint32(bacerr.MessageTooLong), "SecurityErrorCode": uint32(bacerr.SecurityErrorCode),
	"AddressingError": uint32(bacerr.AddressingError), "WriteBdtFailed": uint32(bacerr.WriteBdtFailed), "ReadBdtFailed": uint32(bacerr.ReadBdtFailed),
	"RegisterForeignDeviceFailed": uint32(bacerr.RegisterForeignDeviceFailed), "ReadFdtFailed": uint32(bacerr.ReadFdtFailed),
	"DeleteFdtEntryFailed": uint32(bacerr.DeleteFdtEntryFailed), "DistributeBroadcastFailed": uint32(bacerr.DistributeBroadcastFailed),
	"UnknownFileSize": uint32(bacerr.UnknownFileSize), "AbortApduTooLong": uint32(bacerr.AbortApduTooLong),
	"AbortApplicationExceededReplyTime": uint32(bacerr.AbortApplicationExceededReplyTime), "AbortOutOfResources": uint32(bacerr.AbortOutOfResources),
	"AbortTsmTimeout": uint32(bacerr.AbortTsmTimeout), "AbortWindowSizeOutOfRange": uint32(bacerr.AbortWindowSizeOutOfRange), "FileFull": uint32(bacerr.FileFull),
	"InconsistentConfiguration": uint32(bacerr.InconsistentConfiguration), "InconsistentObjectType": uint32(bacerr.InconsistentObjectType),
	"InternalError": uint32(bacerr.InternalError), "NotConfigured": uint32(bacerr.NotConfigured), "OutOfMemory": uint32(bacerr.OutOfMemory),
	"ValueTooLong": uint32(bacerr.ValueTooLong), "AbortInsufficientSecurity": uint32(bacerr.AbortInsufficientSecurity),
	"AbortSecurityError": uint32(bacerr.AbortSecurityError),
}

var libUnits = map[string]uint32{
	"SquareMeters": uint32(units.SquareMeters), "SquareFeet": uint32(units.SquareFeet), "Milliamperes": uint32(units.Milliamperes), "Amperes": uint32(units.Amperes),
	"Ohms": uint32(units.Ohms), "Volts": uint32(units.Volts), "Kilovolts": uint32(units.Kilovolts), "Megavolts": uint32(units.Megavolts),
	"VoltAmperes": uint32(units.VoltAmperes), "KilovoltAmperes": uint32(units.KilovoltAmperes), "MegavoltAmperes": uint32(units.MegavoltAmperes),
	"VoltAmperesReactive": uint32(units.VoltAmperesReactive), "KilovoltAmperesReactive": uint32(units.KilovoltAmperesReactive),
	"MegavoltAmperesReactive": uint32(units.MegavoltAmperesReactive), "DegreesPhase": uint32(units.DegreesPhase), "PowerFactor": uint32(units.PowerFactor),
	"Joules": uint32(units.Joules), "Kilojoules": uint32(units.Kilojoules), "WattHours": uint32(units.WattHours), "KilowattHours": uint32(units.KilowattHours),
	"Btus": uint32(units.Btus), "Therms": uint32(units.Therms), "TonHours": uint32(units.TonHours), "JoulesPerKilogramDryAir": uint32(units.JoulesPerKilogramDryAir),
	"BtusPerPoundDryAir": uint32(units.BtusPerPoundDryAir), "CyclesPerHour": uint32(units.CyclesPerHour), "CyclesPerMinute": uint32(units.CyclesPerMinute),
	"Hertz": uint32(units.Hertz), "GramsOfWaterPerKilogramDryAir": uint32(units.GramsOfWaterPerKilogramDryAir),
	"PercentRelativeHumidity": uint32(units.PercentRelativeHumidity), "Millimeters": uint32(units.Millimeters), "Meters": uint32(units.Meters),
	"Inches": uint32(units.Inches), "Feet": uint32(units.Feet), "WattsPerSquareFoot": uint32(units.WattsPerSquareFoot),
	"WattsPerSquareMeter": uint32(units.WattsPerSquareMeter), "Lumens": uint32(units.Lumens), "Luxes": uint32(units.Luxes), "FootCandles": uint32(units.FootCandles),
	"Kilograms": uint32(units.Kilograms), "PoundsMass": uint32(units.PoundsMass), "Tons": uint32(units.Tons), "KilogramsPerSecond": uint32(units.KilogramsPerSecond),
	"KilogramsPerMinute": uint32(units.KilogramsPerMinute), "KilogramsPerHour": uint32(units.KilogramsPerHour), "PoundsMassPerMinute": uint32(units.PoundsMassPerMinute),
	"PoundsMassPerHour": uint32(units.PoundsMassPerHour), "Watts": uint32(units.Watts), "Kilowatts": uint32(units.Kilowatts), "Megawatts": uint32(units.Megawatts),
	"BtusPerHour": uint32(units.BtusPerHour), "Horsepower": uint32(units.Horsepower), "TonsRefrigeration": uint32(units.TonsRefrigeration), "Pascals": uint32(units.Pascals),
	"Kilopascals": uint32(units.Kilopascals), "Bars": uint32(units.Bars), "PoundsForcePerSquareInch": uint32(units.PoundsForcePerSquareInch),
	"CentimetersOfWater": uint32(units.CentimetersOfWater), "InchesOfWater": uint32(units.InchesOfWater), "MillimetersOfMercury": uint32(units.MillimetersOfMercury),
	"CentimetersOfMercury": uint32(units.CentimetersOfMercury), "InchesOfMercury": uint32(units.InchesOfMercury), "DegreesCelsius": uint32(units.DegreesCelsius),
	"DegreesKelvin": uint32(units.DegreesKelvin), "DegreesFahrenheit": uint32(units.DegreesFahrenheit), "DegreeDaysCelsius": uint32(units.DegreeDaysCelsius),
	"DegreeDaysFahrenheit": uint32(units.DegreeDaysFahrenheit), "Years": uint32(units.Years), "Months": uint32(units.Months), "Weeks": uint32(units.Weeks),
	"Days": uint32(units.Days), "Hours": uint32(units.Hours), "Minutes": uint32(units.Minutes), "Seconds": uint32(units.Seconds),
	"MetersPerSecond": uint32(units.MetersPerSecond), "KilometersPerHour": uint32(units.KilometersPerHour), "FeetPerSecond": uint32(units.FeetPerSecond),
	"FeetPerMinute": uint32(units.FeetPerMinute), "MilesPerHour": uint32(units.MilesPerHour), "CubicFeet": uint32(units.CubicFeet), "CubicMeters": uint32(units.CubicMeters),
	"ImperialGallons": uint32(units.ImperialGallons), "Liters": uint32(units.Liters), "UsGallons": uint32(units.UsGallons),
	"CubicFeetPerMinute": uint32(units.CubicFeetPerMinute), "CubicMetersPerSecond": uint32(units.CubicMetersPerSecond),
	"ImperialGallonsPerMinute": uint32(units.ImperialGallonsPerMinute), "LitersPerSecond": uint32(units.LitersPerSecond), "LitersPerMinute": uint32(units.LitersPerMinute),
	"USGallonsPerMinute": uint32(units.USGallonsPerMinute), "DegreesAngular": uint32(units.DegreesAngular), "DegreesCelsiusPerHour": uint32(units.DegreesCelsiusPerHour),
	"DegreesCelsiusPerMinute": uint32(units.DegreesCelsiusPerMinute), "DegreesFahrenheitPerHour": uint32(units.DegreesFahrenheitPerHour),
	"DegreesFahrenheitPerMinute": uint32(units.DegreesFahrenheitPerMinute), "NoUnits": uint32(units.NoUnits), "PartsPerMillion": uint32(units.PartsPerMillion),
	"PartsPerBillion": uint32(units.PartsPerBillion), "Percent": uint32(units.Percent), "PercentPerSecond": uint32(units.PercentPerSecond),
	"PerMinute": uint32(units.PerMinute), "PerSecond": uint32(units.PerSecond), "PsiPerDegreeFahrenheit": uint32(units.PsiPerDegreeFahrenheit),
	"Radians": uint32(units.Radians), "RevolutionsPerMinute": uint32(units.RevolutionsPerMinute), "SquareInches": uint32(units.SquareInches),
	"SquareCentimeters": uint32(units.SquareCentimeters), "BtusPerPound": uint32(units.BtusPerPound), "Centimeters": uint32(units.Centimeters),
	"PoundsMassPerSecond": uint32(units.PoundsMassPerSecond), "DeltaDegreesFahrenheit": uint32(units.DeltaDegreesFahrenheit),
	"DeltaDegreesKelvin": uint32(units.DeltaDegreesKelvin), "Kilohms": uint32(units.Kilohms), "Megohms": uint32(units.Megohms), "Millivolts": uint32(units.Millivolts),
	"KilojoulesPerKilogram": uint32(units.KilojoulesPerKilogram), "Megajoules": uint32(units.Megajoules), "JoulesPerDegreeKelvin": uint32(units.JoulesPerDegreeKelvin),
	"JoulesPerKilogramDegreeKelvin": uint32(units.JoulesPerKilogramDegreeKelvin), "Kilohertz": uint32(units.Kilohertz), "Megahertz": uint32(units.Megahertz),
	"PerHour": uint32(units.PerHour), "Milliwatts": uint32(units.Milliwatts), "Hectopascals": uint32(units.Hectopascals), "Millibars": uint32(units.Millibars),
	"CubicMetersPerHour": uint32(units.CubicMetersPerHour), "LitersPerHour": uint32(units.LitersPerHour), "KwHoursPerSquareMeter": uint32(units.KwHoursPerSquareMeter),
	"KwHoursPerSquareFoot": uint32(units.KwHoursPerSquareFoot), "MegajoulesPerSquareMeter": uint32(units.MegajoulesPerSquareMeter),
	"MegajoulesPerSquareFoot": uint32(units.MegajoulesPerSquareFoot), "WattsPerSquareMeterDegreeKelvin": uint32(units.WattsPerSquareMeterDegreeKelvin),
	"CubicFeetPerSecond": uint32(units.CubicFeetPerSecond), "PercentObscurationPerFoot": uint32(units.PercentObscurationPerFoot),
	"PercentObscurationPerMeter": uint32(units.PercentObscurationPerMeter), "Milliohms": uint32(units.Milliohms), "MegawattHours": uint32(units.MegawattHours),
	"KiloBtus": uint32(units.KiloBtus), "MegaBtus": uint32(units.MegaBtus), "KilojoulesPerKilogramDryAir": uint32(units.KilojoulesPerKilogramDryAir),
	"MegajoulesPerKilogramDryAir": uint32(units.MegajoulesPerKilogramDryAir), "KilojoulesPerDegreeKelvin": uint32(units.KilojoulesPerDegreeKelvin),
	"MegajoulesPerDegreeKelvin": uint32(units.MegajoulesPerDegreeKelvin), "Newton": uint32(units.Newton), "GramsPerSecond": uint32(units.GramsPerSecond),
	"GramsPerMinute": uint32(units.GramsPerMinute), "TonsPerHour": uint32(units.TonsPerHour), "KiloBtusPerHour": uint32(units.KiloBtusPerHour),
	"HundredthsSeconds": uint32(units.HundredthsSeconds), "Milliseconds": uint32(units.Milliseconds), "NewtonMeters": uint32(units.NewtonMeters),
	"MillimetersPerSecond": uint32(units.MillimetersPerSecond), "MillimetersPerMinute": uint32(units.MillimetersPerMinute), "MetersPerMinute": uint32(units.MetersPerMinute),
	"MetersPerHour": uint32(units.MetersPerHour), "CubicMetersPerMinute": uint32(units.CubicMetersPerMinute),
	"MetersPerSecondPerSecond": uint32(units.MetersPerSecondPerSecond), "AmperesPerMeter": uint32(units.AmperesPerMeter),
	"AmperesPerSquareMeter": uint32(units.AmperesPerSquareMeter), "AmpereSquareMeters": uint32(units.AmpereSquareMeters), "Farads": uint32(units.Farads),
	"Henrys": uint32(units.Henrys), "OhmMeters": uint32(units.OhmMeters), "Siemens": uint32(units.Siemens), "SiemensPerMeter": uint32(units.SiemensPerMeter),
	"Teslas": uint32(units.Teslas), "VoltsPerDegreeKelvin": uint32(units.VoltsPerDegreeKelvin), "VoltsPerMeter": uint32(units.VoltsPerMeter), "Webers": uint32(units.Webers),
	"Candelas": uint32(units.Candelas), "CandelasPerSquareMeter": uint32(units.CandelasPerSquareMeter), "DegreesKelvinPerHour": uint32(units.DegreesKelvinPerHour),
	"DegreesKelvinPerMinute": uint32(units.DegreesKelvinPerMinute), "JouleSeconds": uint32(units.JouleSeconds), "RadiansPerSecond": uint32(units.RadiansPerSecond),
	"SquareMetersPerNewton": uint32(units.SquareMetersPerNewton), "KilogramsPerCubicMeter": uint32(units.KilogramsPerCubicMeter),
	"NewtonSeconds": uint32(units.NewtonSeconds), "NewtonsPerMeter": uint32(units.NewtonsPerMeter),
	"WattsPerMeterPerDegreeKelvin": uint32(units.WattsPerMeterPerDegreeKelvin), "Microsiemens": uint32(units.Microsiemens),
	"CubicFeetPerHour": uint32(units.CubicFeetPerHour), "USGallonsPerHour": uint32(units.USGallonsPerHour), "Kilometers": uint32(units.Kilometers),
	"Micrometers": uint32(units.Micrometers), "Grams": uint32(units.Grams), "Milligrams": uint32(units.Milligrams), "Milliliters": uint32(units.Milliliters),
	"MillilitersPerSecond": uint32(units.MillilitersPerSecond), "Decibels": uint32(units.Decibels), "DecibelsMillivolt": uint32(units.DecibelsMillivolt),
	"DecibelsVolt": uint32(units.DecibelsVolt), "Millisiemens": uint32(units.Millisiemens), "WattHoursReactive": uint32(units.WattHoursReactive),
	"KilowattHoursReactive": uint32(units.KilowattHoursReactive), "MegawattHoursReactive": uint32(units.MegawattHoursReactive),
	"MillimetersOfWater": uint32(units.MillimetersOfWater), "PerMille": uint32(units.PerMille), "GramsPerGram": uint32(units.GramsPerGram),
	"KilogramsPerKilogram": uint32(units.KilogramsPerKilogram), "GramsPerKilogram": uint32(units.GramsPerKilogram), "MilligramsPerGram": uint32(units.MilligramsPerGram),
	"MilligramsPerKilogram": uint32(units.MilligramsPerKilogram), "GramsPerMilliliter": uint32(units.GramsPerMilliliter), "GramsPerLiter": uint32(units.GramsPerLiter),
	"MilligramsPerLiter": uint32(units.MilligramsPerLiter), "MicrogramsPerLiter": uint32(units.MicrogramsPerLiter), "GramsPerCubicMeter": uint32(units.GramsPerCubicMeter),
	"MilligramsPerCubicMeter": uint32(units.MilligramsPerCubicMeter), "MicrogramsPerCubicMeter": uint32(units.MicrogramsPerCubicMeter),
	"NanogramsPerCubicMeter": uint32(units.NanogramsPerCubicMeter), "GramsPerCubicCentimeter": uint32(units.GramsPerCubicCentimeter), "Becquerels": uint32(units.Becquerels),
	"Megabecquerels": uint32(units.Megabecquerels), "Gray": uint32(units.Gray), "Milligray": uint32(units.Milligray), "Microgray": uint32(units.Microgray),
	"Sieverts": uint32(units.Sieverts), "Millisieverts": uint32(units.Millisieverts), "Microsieverts": uint32(units.Microsieverts),
	"MicrosievertsPerHour": uint32(units.MicrosievertsPerHour), "DecibelsA": uint32(units.DecibelsA), "NephelometricTurbidityUnit": uint32(units.NephelometricTurbidityUnit),
	"Ph": uint32(units.Ph), "GramsPerSquareMeter": uint32(units.GramsPerSquareMeter), "MinutesPerDegreeKelvin": uint32(units.MinutesPerDegreeKelvin),
}

var libSegmentation = map[string]uint32{
	"SegmentedBoth": uint32(segmentation.SegmentedBoth), "SegmentedTransmit": uint32(segmentation.SegmentedTransmit),
	"SegmentedReceive": uint32(segmentation.SegmentedReceive), "NoSegmentation": uint32(segmentation.NoSegmentation),
}

var libNetworkMessages = map[string]uint32{
	"WhoIsRouterToNetwork": uint32(ndpu.WhoIsRouterToNetwork), "IamRouterToNetwork": uint32(ndpu.IamRouterToNetwork),
	"WhatIsNetworkNumber": uint32(ndpu.WhatIsNetworkNumber), "NetworkIs": uint32(ndpu.NetworkIs),
}
