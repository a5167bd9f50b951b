"""The instruction list of the programmers reference manual (Table II): the
twelve bits of each command code.

s sequence, m mask, a b c activity, p peripheral address, x not used."""

# mnemonic: (form that takes a mask, form that does not, class)
LIST = {
    'BA': ('smmmmm101001', 's10abc001001', 'BinaryAdd'),
    'DA': ('smmmmm100001', 's10abc000001', 'DecimalAdd'),
    'WA': ('smmmmm101101', 's10abc001101', 'WordAdd'),
    'BS': ('smmmmm111001', 's10abc011001', 'BinarySubtract'),
    'DS': ('smmmmm110001', 's10abc010001', 'DecimalSubtract'),
    'WD': ('smmmmm111101', 's10abc011101', 'WordDifference'),
    'NA': ('smmmmm101100', 's10abc001100', 'NotEqualAlphabetic'),
    'NN': ('smmmmm101000', 's10abc001000', 'NotEqualNumeric'),
    'LA': ('smmmmm111100', 's10abc011100', 'LessThanOrEqualAlphabetic'),
    'LN': ('smmmmm111000', 's10abc011000', 'LessThanOrEqualNumeric'),
    'TX': ('smmmmm110000', 's10abc010000', 'Transfer'),
    'TS': ('smmmmm100100', 's10abc000100', 'TransferChangeSequence'),
    'HA': ('smmmmm110101', 's10abc010101', 'HalfAdd'),
    'SM': ('smmmmm100101', 's10abc000101', 'Superimpose'),
    'CP': ('smmmmm110100', 's10abc010100', 'CheckParity'),
    'BM': (None, 's00abc001011', 'BinaryMultiply'),
    'DM': (None, 's00abc000011', 'DecimalMultiply'),
    'BT': (None, 's10abc001011', 'BinaryAccumulate'),
    'DT': (None, 's10abc000011', 'DecimalAccumulate'),
    'MT': (None, 's00abc010000', 'MultipleTransfer'),
    'TN': (None, 's01abc010000', 'TransferNWords'),
    'CC': (None, 's01abc001000', 'ComputeOrthocount'),
    'IT': (None, 's01abc011000', 'ItemTransfer'),
    'EBA': (None, 's11abc001011', 'ExtendedBinaryAdd'),
    'EBS': (None, 's11abc011011', 'ExtendedBinarySubtract'),
    'RT': (None, 's11abc011000', 'RecordTransfer'),
    'MPC': (None, 's10abc000000', 'ControlProgram'),
    'PR': (None, 'x000xx000000', 'Proceed'),
    'SWS': (None, 's10abc000110', 'ShiftWordAndSubstitute'),
    'SPS': (None, 's10abc000010', 'ShiftPreservingSignAndSubstitute'),
    'SWE': (None, 's10abc001110', 'ShiftWordAndExtract'),
    'SPE': (None, 's10abc001010', 'ShiftPreservingSignAndExtract'),
    'SSL': (None, 's10abc010110', 'ShiftAndSelect'),
    'SS': (None, 's00abc000110', 'Substitute'),
    'EX': (None, 's00abc001110', 'Extract'),
    'RF': (None, 'pppppp111010', 'ReadForward'),
    'RB': (None, 'pppppp101010', 'ReadBackward'),
    'WF': (None, 'pppppp101110', 'WriteForward'),
    'RW': (None, 'pppppp100010', 'Rewind'),
    'PRA': (None, 'sxxabc100110', 'PrintAlphabetic'),
    'PRD': (None, 'sxxabc100110', 'PrintDecimal'),
    'PRO': (None, 'sxxabc100110', 'PrintOctal'),
    'S': (None, 'sxxxxxxxx111', 'Simulator'),
    'FBA': (None, 's01abc000001', 'FloatingBinaryAdd'),
    'FDA': (None, 's01abc010001', 'FloatingDecimalAdd'),
    'FBS': (None, 's01abc001001', 'FloatingBinarySubtract'),
    'FDS': (None, 's01abc011001', 'FloatingDecimalSubtract'),
    'FBD': (None, 's01abc000101', 'FloatingBinaryDivide'),
    'FDD': (None, 's01abc010101', 'FloatingDecimalDivide'),
    'FBAU': (None, 's11abc000001', 'FloatingBinaryAddUnnormalized'),
    'FDAU': (None, 's11abc010001', 'FloatingDecimalAddUnnormalized'),
    'FBSU': (None, 's11abc001001', 'FloatingBinarySubtractUnnormalized'),
    'FDSU': (None, 's11abc011001', 'FloatingDecimalSubtractUnnormalized'),
    'FBM': (None, 's11abc000101', 'FloatingBinaryMultiply'),
    'FDM': (None, 's11abc010101', 'FloatingDecimalMultiply'),
    'ULD': (None, 's11abc001101', 'MultipleUnload'),
    'FBAE': (None, 's00abc000001', 'FloatingBinaryAddExtendedPrecision'),
    'FBSE': (None, 's00abc001001', 'FloatingBinarySubtractExtendedPrecision'),
    'BD': (None, 's00abc000101', 'FixedBinaryDivide'),
    'DD': (None, 's00abc010101', 'FixedDecimalDivide'),
    'FFN': (None, 's00abc001101', 'FixedToFloatingNormalize'),
    'FCON': (None, 's00abc011101', 'Conversion'),
    'FLN': (None, 's00abc011000', 'FloatingLessThanNormalized'),
    'FNN': (None, 's10abc001100', 'FloatingNotEqualNormalized'),
}

CONTROL_INSTRUCTIONS = (
    'ASSIGN', 'END', 'EQUALS', 'EVEN', 'MASKGRP', 'MODLOC', 'RESERVE',
    'SETLOC', 'SIMULATE', 'TAS',
)

DATA_CONSTANTS = (
    'ALF', 'DEC', 'EBC', 'FLBIN', 'FLDEC', 'FXBIN', 'OCT',
)

CONTROL_CONSTANTS = (
    'SPEC', 'CAC', 'MASKBASE', 'CONTROL', 'M', 'TAC', 'LINK', 'SEGNAME',
    'SUBCALL',
)

EXTENDED_INSTRUCTIONS = (
    'CSCON', 'DOFF', 'DON', 'SCON', 'SPCR', 'STOP',
)

MISC_INSTRUCTIONS = (
    'COREDUMP', 'DUMP',
)

ARGUS_INSTRUCTIONS = (
    'ARGUS', 'U', 'MACRODEF', 'FINIS', 'ELIMSEG', 'SEGMENT', 'PROGRAM',
    'TESTDATA', 'ELIMDATA', 'ELIMDERL', 'DELETE', 'ENDARGUS',
)

CONSTANT_CLASSES = {
    'ALF': 'AlphanumericConstant',
    'DEC': 'DecimalConstant',
    'EBC': 'ExtendedBinaryConstant',
    'FLBIN': 'FloatingBinaryConstant',
    'FLDEC': 'FloatingDecimalConstant',
    'FXBIN': 'FixedBinaryConstant',
    'OCT': 'OctalConstant',
    'SPEC': 'SpecialAddressConstant',
    'CAC': 'CompleteAddressConstant',
    'MASKBASE': 'MaskBaseAddressConstant',
    'CONTROL': 'ProgramControlConstant',
    'M': 'MixedConstant',
    'TAC': 'TapeAddressConstant',
    'LINK': 'LinkageConstant',
    'SEGNAME': 'SegmentNameConstant',
    'SUBCALL': 'SubroutineCallConstant',
}
