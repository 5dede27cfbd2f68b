"""ONNX operators: (first opset, fewest inputs, most inputs, fewest outputs, most outputs) over all versions up to opset 24, None without limit; and whether this importer claims to support them."""
OPS = {
    "Abs": (1, 1, 1, 1, 1),
    "Acos": (7, 1, 1, 1, 1),
    "Acosh": (9, 1, 1, 1, 1),
    "Add": (1, 2, 2, 1, 1),
    "AffineGrid": (20, 2, 2, 1, 1),
    "And": (1, 2, 2, 1, 1),
    "ArgMax": (1, 1, 1, 1, 1),
    "ArgMin": (1, 1, 1, 1, 1),
    "Asin": (7, 1, 1, 1, 1),
    "Asinh": (9, 1, 1, 1, 1),
    "Atan": (7, 1, 1, 1, 1),
    "Atanh": (9, 1, 1, 1, 1),
    "Attention": (23, 3, 7, 1, 4),
    "AveragePool": (1, 1, 1, 1, 1),
    "BatchNormalization": (1, 5, 5, 1, 5),
    "Bernoulli": (15, 1, 1, 1, 1),
    "BitShift": (11, 2, 2, 1, 1),
    "BitwiseAnd": (18, 2, 2, 1, 1),
    "BitwiseNot": (18, 1, 1, 1, 1),
    "BitwiseOr": (18, 2, 2, 1, 1),
    "BitwiseXor": (18, 2, 2, 1, 1),
    "BlackmanWindow": (17, 1, 1, 1, 1),
    "Cast": (1, 1, 1, 1, 1),
    "CastLike": (15, 2, 2, 1, 1),
    "Ceil": (1, 1, 1, 1, 1),
    "Celu": (12, 1, 1, 1, 1),
    "CenterCropPad": (18, 2, 2, 1, 1),
    "Clip": (1, 1, 3, 1, 1),
    "Col2Im": (18, 3, 3, 1, 1),
    "Compress": (9, 2, 2, 1, 1),
    "Concat": (1, 1, None, 1, 1),
    "ConcatFromSequence": (11, 1, 1, 1, 1),
    "Constant": (1, 0, 0, 1, 1),
    "ConstantOfShape": (9, 1, 1, 1, 1),
    "Conv": (1, 2, 3, 1, 1),
    "ConvInteger": (10, 2, 4, 1, 1),
    "ConvTranspose": (1, 2, 3, 1, 1),
    "Cos": (7, 1, 1, 1, 1),
    "Cosh": (9, 1, 1, 1, 1),
    "CumSum": (11, 2, 2, 1, 1),
    "DFT": (17, 1, 3, 1, 1),
    "DeformConv": (19, 3, 5, 1, 1),
    "DepthToSpace": (1, 1, 1, 1, 1),
    "DequantizeLinear": (10, 2, 3, 1, 1),
    "Det": (11, 1, 1, 1, 1),
    "Div": (1, 2, 2, 1, 1),
    "Dropout": (1, 1, 3, 1, 2),
    "DynamicQuantizeLinear": (11, 1, 1, 3, 3),
    "Einsum": (12, 1, None, 1, 1),
    "Elu": (1, 1, 1, 1, 1),
    "Equal": (1, 2, 2, 1, 1),
    "Erf": (9, 1, 1, 1, 1),
    "Exp": (1, 1, 1, 1, 1),
    "Expand": (8, 2, 2, 1, 1),
    "EyeLike": (9, 1, 1, 1, 1),
    "Flatten": (1, 1, 1, 1, 1),
    "Floor": (1, 1, 1, 1, 1),
    "GRU": (1, 3, 6, 0, 2),
    "Gather": (1, 2, 2, 1, 1),
    "GatherElements": (11, 2, 2, 1, 1),
    "GatherND": (11, 2, 2, 1, 1),
    "Gelu": (20, 1, 1, 1, 1),
    "Gemm": (1, 2, 3, 1, 1),
    "GlobalAveragePool": (1, 1, 1, 1, 1),
    "GlobalLpPool": (1, 1, 1, 1, 1),
    "GlobalMaxPool": (1, 1, 1, 1, 1),
    "Greater": (1, 2, 2, 1, 1),
    "GreaterOrEqual": (12, 2, 2, 1, 1),
    "GridSample": (16, 2, 2, 1, 1),
    "GroupNormalization": (18, 3, 3, 1, 1),
    "HammingWindow": (17, 1, 1, 1, 1),
    "HannWindow": (17, 1, 1, 1, 1),
    "HardSigmoid": (1, 1, 1, 1, 1),
    "HardSwish": (14, 1, 1, 1, 1),
    "Hardmax": (1, 1, 1, 1, 1),
    "Identity": (1, 1, 1, 1, 1),
    "If": (1, 1, 1, 1, None),
    "ImageDecoder": (20, 1, 1, 1, 1),
    "InstanceNormalization": (1, 3, 3, 1, 1),
    "IsInf": (10, 1, 1, 1, 1),
    "IsNaN": (9, 1, 1, 1, 1),
    "LRN": (1, 1, 1, 1, 1),
    "LSTM": (1, 3, 8, 0, 3),
    "LayerNormalization": (17, 2, 3, 1, 3),
    "LeakyRelu": (1, 1, 1, 1, 1),
    "Less": (1, 2, 2, 1, 1),
    "LessOrEqual": (12, 2, 2, 1, 1),
    "Log": (1, 1, 1, 1, 1),
    "LogSoftmax": (1, 1, 1, 1, 1),
    "Loop": (1, 2, None, 1, None),
    "LpNormalization": (1, 1, 1, 1, 1),
    "LpPool": (1, 1, 1, 1, 1),
    "MatMul": (1, 2, 2, 1, 1),
    "MatMulInteger": (10, 2, 4, 1, 1),
    "Max": (1, 1, None, 1, 1),
    "MaxPool": (1, 1, 1, 1, 2),
    "MaxRoiPool": (1, 2, 2, 1, 1),
    "MaxUnpool": (9, 2, 3, 1, 1),
    "Mean": (1, 1, None, 1, 1),
    "MeanVarianceNormalization": (9, 1, 1, 1, 1),
    "MelWeightMatrix": (17, 5, 5, 1, 1),
    "Min": (1, 1, None, 1, 1),
    "Mish": (18, 1, 1, 1, 1),
    "Mod": (10, 2, 2, 1, 1),
    "Mul": (1, 2, 2, 1, 1),
    "Multinomial": (7, 1, 1, 1, 1),
    "Neg": (1, 1, 1, 1, 1),
    "NegativeLogLikelihoodLoss": (12, 2, 3, 1, 1),
    "NonMaxSuppression": (10, 2, 5, 1, 1),
    "NonZero": (9, 1, 1, 1, 1),
    "Not": (1, 1, 1, 1, 1),
    "OneHot": (9, 3, 3, 1, 1),
    "Optional": (15, 0, 1, 1, 1),
    "OptionalGetElement": (15, 1, 1, 1, 1),
    "OptionalHasElement": (15, 0, 1, 1, 1),
    "Or": (1, 2, 2, 1, 1),
    "PRelu": (1, 2, 2, 1, 1),
    "Pad": (1, 1, 4, 1, 1),
    "Pow": (1, 2, 2, 1, 1),
    "QLinearConv": (10, 8, 9, 1, 1),
    "QLinearMatMul": (10, 8, 8, 1, 1),
    "QuantizeLinear": (10, 2, 3, 1, 1),
    "RMSNormalization": (23, 2, 2, 1, 1),
    "RNN": (1, 3, 6, 0, 2),
    "RandomNormal": (1, 0, 0, 1, 1),
    "RandomNormalLike": (1, 1, 1, 1, 1),
    "RandomUniform": (1, 0, 0, 1, 1),
    "RandomUniformLike": (1, 1, 1, 1, 1),
    "Range": (11, 3, 3, 1, 1),
    "Reciprocal": (1, 1, 1, 1, 1),
    "ReduceL1": (1, 1, 2, 1, 1),
    "ReduceL2": (1, 1, 2, 1, 1),
    "ReduceLogSum": (1, 1, 2, 1, 1),
    "ReduceLogSumExp": (1, 1, 2, 1, 1),
    "ReduceMax": (1, 1, 2, 1, 1),
    "ReduceMean": (1, 1, 2, 1, 1),
    "ReduceMin": (1, 1, 2, 1, 1),
    "ReduceProd": (1, 1, 2, 1, 1),
    "ReduceSum": (1, 1, 2, 1, 1),
    "ReduceSumSquare": (1, 1, 2, 1, 1),
    "RegexFullMatch": (20, 1, 1, 1, 1),
    "Relu": (1, 1, 1, 1, 1),
    "Reshape": (1, 1, 2, 1, 1),
    "Resize": (10, 1, 4, 1, 1),
    "ReverseSequence": (10, 2, 2, 1, 1),
    "RoiAlign": (10, 3, 3, 1, 1),
    "RotaryEmbedding": (23, 3, 4, 1, 1),
    "Round": (11, 1, 1, 1, 1),
    "STFT": (17, 2, 4, 1, 1),
    "Scan": (8, 1, None, 1, None),
    "Scatter": (9, 3, 3, 1, 1),
    "ScatterElements": (11, 3, 3, 1, 1),
    "ScatterND": (11, 3, 3, 1, 1),
    "Selu": (1, 1, 1, 1, 1),
    "SequenceAt": (11, 2, 2, 1, 1),
    "SequenceConstruct": (11, 1, None, 1, 1),
    "SequenceEmpty": (11, 0, 0, 1, 1),
    "SequenceErase": (11, 1, 2, 1, 1),
    "SequenceInsert": (11, 2, 3, 1, 1),
    "SequenceLength": (11, 1, 1, 1, 1),
    "SequenceMap": (17, 1, None, 1, None),
    "Shape": (1, 1, 1, 1, 1),
    "Shrink": (9, 1, 1, 1, 1),
    "Sigmoid": (1, 1, 1, 1, 1),
    "Sign": (9, 1, 1, 1, 1),
    "Sin": (7, 1, 1, 1, 1),
    "Sinh": (9, 1, 1, 1, 1),
    "Size": (1, 1, 1, 1, 1),
    "Slice": (1, 1, 5, 1, 1),
    "Softmax": (1, 1, 1, 1, 1),
    "SoftmaxCrossEntropyLoss": (12, 2, 3, 1, 2),
    "Softplus": (1, 1, 1, 1, 1),
    "Softsign": (1, 1, 1, 1, 1),
    "SpaceToDepth": (1, 1, 1, 1, 1),
    "Split": (1, 1, 2, 1, None),
    "SplitToSequence": (11, 1, 2, 1, 1),
    "Sqrt": (1, 1, 1, 1, 1),
    "Squeeze": (1, 1, 2, 1, 1),
    "StringConcat": (20, 2, 2, 1, 1),
    "StringNormalizer": (10, 1, 1, 1, 1),
    "StringSplit": (20, 1, 1, 2, 2),
    "Sub": (1, 2, 2, 1, 1),
    "Sum": (1, 1, None, 1, 1),
    "Swish": (24, 1, 1, 1, 1),
    "Tan": (7, 1, 1, 1, 1),
    "Tanh": (1, 1, 1, 1, 1),
    "TensorScatter": (24, 2, 3, 1, 1),
    "TfIdfVectorizer": (9, 1, 1, 1, 1),
    "ThresholdedRelu": (10, 1, 1, 1, 1),
    "Tile": (1, 2, 3, 1, 1),
    "TopK": (1, 1, 2, 2, 2),
    "Transpose": (1, 1, 1, 1, 1),
    "Trilu": (14, 1, 2, 1, 1),
    "Unique": (11, 1, 1, 1, 4),
    "Unsqueeze": (1, 1, 2, 1, 1),
    "Upsample": (1, 2, 2, 1, 1),
    "Where": (9, 3, 3, 1, 1),
    "Xor": (1, 2, 2, 1, 1),
}
SUPPORTED = """Abs Acos Acosh Add And ArgMax ArgMin Asin Asinh Atan Atanh Attention AveragePool BatchNormalization Bernoulli BitShift BitwiseAnd BitwiseNot BitwiseOr BitwiseXor Cast Ceil Celu Clip Col2Im Concat Constant ConstantOfShape Conv ConvTranspose Cos Cosh CumSum DeformConv DepthToSpace Div Dropout Elu Equal Erf Exp Expand EyeLike Flatten Floor GRU Gather GatherElements GatherND Gelu Gemm GlobalAveragePool Greater GreaterOrEqual GridSample GroupNormalization HardSigmoid HardSwish Hardmax Identity If InstanceNormalization IsInf IsNaN LSTM LayerNormalization LeakyRelu Less LessOrEqual Log LogSoftmax Loop MatMul MatMulInteger Max MaxPool Mean Min Mish Mod Mul Neg NonZero Not OneHot Or PRelu Pad Pow RNN RandomNormal RandomNormalLike RandomUniform RandomUniformLike Range Reciprocal ReduceL ReduceL1 ReduceL2 ReduceLogSum ReduceLogSumExp ReduceMax ReduceMean ReduceMin ReduceProd ReduceSum ReduceSumSquare Relu Reshape Resize Round Scan ScatterElements ScatterND Selu Shape Sigmoid Sign Sin Sinh Size Slice Softmax Softplus Softsign SpaceToDepth Split Sqrt Squeeze Sub Sum Swish Tan Tanh ThresholdedRelu Tile TopK Transpose Trilu Unsqueeze Where Xor""".split()
