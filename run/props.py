"""The properties: which modules carry them, and whose obligations state them."""
RAW, RD, LG = r'^spv::raw::', r'^spv::raw::reader::', r'^spv::logical::'
ENUMS = r'SourceLanguage|Decoration|BuiltIn|AddressingModel|MemoryModel|ExecutionModel|ExecutionMode|Capability|Signedness|StorageClass|FpRoundingMode|LinkageType|FunctionParameterAttribute|Dim|DepthStatus|Arrayed|MS|SampledStatus|ImageFormat|AccessQualifier|MemoryAccess|FunctionControl|LoopControl|SelectionControl|FpFastMathMode'
READ_MODS = ['spv::raw::reader', 'spv::raw', 'glsl450']

PROPS = {
    'C01': {'modules': ['spv::raw::reader'], 'core': [RD + r'read_module$', RD + r'<Stream>']},
    'C02': {'modules': ['spv::raw::reader', 'theorem_bytes'], 'core': [RD + r'read_module$', RD + r'<Stream>', RD + r'read_instruction$']},
    'C03': {'modules': ['spv::raw::reader', 'spv::raw'], 'core': [RD + r'read_module$', RD + r'read_instruction$', RD + r'<Stream>', RAW + r'<MemoryBlock>']},
    'C04': {'modules': READ_MODS, 'core': [RD + r'read_instruction$', RD + r'<(MemoryBlockRead|CoreRead) for (?!OpExtInst\w*>)', RAW + r'<MemoryBlockRead for (OpId|ResultId|u32|SourceVersion|MemberIndex)>']},
    'C05': {'modules': ['spv::raw'], 'core': [RAW + r'<MemoryBlockRead for (%s)>' % ENUMS]},
    'C06': {'modules': ['spv::raw', 'theorem_strings'], 'core': [RAW + r'<MemoryBlockRead for LitString>']},
    'C07': {'modules': ['spv::raw'], 'core': [RAW + r'<MemoryBlockRead for (Option<T>|Vec<T>|PhiArg|BranchWeights)>']},
    'C08': {'modules': ['spv::raw::reader', 'glsl450'], 'core': [RD + r'<CoreRead for OpExtInst', r'^glsl450::(<ExtInstSet|read_)']},
    'C09': {'modules': READ_MODS, 'core': [RAW, r'^glsl450::'], 'total': True},
    'C10': {'modules': ['spv::logical::parser', 'spv::logical::parser::parser', 'theorem_layout'], 'core': [LG + 'parser::']},
    'C11': {'modules': ['spv::logical::parser', 'spv::logical::parser::parser', 'theorem_layout'], 'core': [LG + 'parser::']},
    'C12': {'modules': ['spv::logical::parser', 'spv::logical::parser::parser'], 'core': [LG + 'parser::'], 'total': True},
    'C13': {'modules': ['spv::logical::control_flow'], 'core': [LG + r'control_flow::(?!.*(fmt|Display))']},
    'C14': {'modules': ['spv::logical::control_flow'], 'core': [LG + r'control_flow::(?!.*(fmt|Display))'], 'both': True},
    'C15': {'modules': ['spv::logical::control_flow', 'spv::logical'], 'core': [LG + r'(control_flow::.*(fmt|Display)|<)'], 'both': True, 'mode': 'text'},
    'C16': {'modules': ['spv::types', 'spv::op', 'spv::dis', 'spv::raw', 'spv', 'glsl450', 'glsl450::op'],
            'core': [r'Display for', r'FormatArg', r'DisplayArg', r'<Tool>', r'<Op for', r'description', r'AsRef'], 'both': True, 'mode': 'text'},
    'C17': {'modules': ['spv::types', 'spv::op', 'spv::raw', 'spv', 'spv::logical', 'spv::logical::parser', 'spv::logical::parser::parser',
                        'spv::logical::control_flow', 'glsl450', 'glsl450::op', 'theorem_values'],
            'core': [r'::<(Clone|PartialEq(<\w+>)?|Default|ExtInst|ExtInstClone|AsRef<ExtInst>) for '], 'both': True, 'copies': True, 'mode': 'values'},
}

# kinds of obligations that say: the function returns, without a panic
TOTALITY = ('precondition', 'arithmetic', 'decreases', 'panic')


def kind_of(message, labels):
    """The kind of obligation an error is about; None: not an obligation"""
    m = message.lower()
    if 'postcondition not satisfied' in m:
        return 'postcondition'
    if 'rlimit' in m or 'resource limit' in m:
        return 'rlimit'
    if 'precondition not satisfied' in m or 'precondition not met' in m:
        return 'precondition'
    if 'invariant not satisfied' in m or 'loop ensures' in m or 'loop invariant' in m:
        return 'invariant'
    if 'assertion' in m and 'fail' in m or 'assert_by' in m:
        return 'assertion'
    if 'overflow' in m or 'underflow' in m or 'division by zero' in m or 'divide by zero' in m or 'bit shift' in m:
        return 'arithmetic'
    if 'decreases not satisfied' in m or 'could not prove termination' in m:
        return 'decreases'
    return None
