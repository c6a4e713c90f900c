"""What is built, and which binaries decide which property."""

# protobuf objects, by .proto.
PROTOS = ['gen/serialization/%s.pb.cc' % p for p in (
    'astronomy', 'base', 'geometry', 'integrators', 'journal', 'ksp_plugin',
    'numerics', 'options', 'physics', 'quantities', 'testing_utilities')]
PROTO = [(p, ['-O1']) for p in PROTOS]
# The protos without the (big) journal.
SMALL_PROTO = [(p, ['-O1']) for p in PROTOS
               if 'journal' not in p and 'testing' not in p]

# The non-inline parts of the numerics that most headers need.
ELEMENTARY = [('repo/numerics/sin_cos.cpp', ['-O2']),
              ('repo/numerics/cbrt.cpp', ['-O2']),
              ('repo/base/cpuid.cpp', []),
              ('repo/geometry/instant.cpp', [])] + SMALL_PROTO

ASAN = ['-O1', '-fsanitize=address']

FMA = ['-mavx', '-mfma', '-UPRINCIPIA_REQUIRES_FMA',
       '-DPRINCIPIA_REQUIRES_FMA=1', '-UPRINCIPIA_REQUIRES_AVX',
       '-DPRINCIPIA_REQUIRES_AVX=1']

TARGETS = {
    'base_codecs': {
        'sources': ['base_codecs.cpp'],
        'flags': ASAN, 'ldflags': ['-fsanitize=address'],
    },
    'base_streams': {
        'sources': ['base_streams.cpp', ('repo/base/zfp_compressor.cpp', [])] +
                   SMALL_PROTO,
    },
    'base_threads': {
        'sources': ['base_threads.cpp', ('repo/base/bundle.cpp', [])],
    },
    'base_utilities': {
        'sources': ['base_utilities.cpp', ('repo/base/cpuid.cpp', []),
                    ('repo/base/flags.cpp', [])],
        'flags': ASAN, 'ldflags': ['-fsanitize=address'],
    },
    'floating_point': {
        'sources': ['floating_point.cpp', ('repo/numerics/cbrt.cpp', ['-O2']),
                    ('repo/numerics/sin_cos.cpp', ['-O2']),
                    ('repo/base/cpuid.cpp', []),
                    ('repo/functions/multiprecision.cpp', [])] + SMALL_PROTO,
        'ldflags': ['-lgmp', '-lquadmath'],
    },
    'quantities': {
        'sources': ['quantities.cpp', ('repo/numerics/sin_cos.cpp', ['-O2']),
                    ('repo/numerics/cbrt.cpp', ['-O2']),
                    ('repo/base/cpuid.cpp', [])] + SMALL_PROTO,
    },
    'geometry_maps': {
        'sources': ['geometry_maps.cpp'] + ELEMENTARY,
    },
    'geometry_algebra': {
        'sources': ['geometry_algebra.cpp'] + ELEMENTARY,
    },
    'geometry_algebra_fma': {
        'sources': ['geometry_algebra.cpp'] + ELEMENTARY,
        'flags': FMA,
    },
    'polynomials': {
        'sources': [('polynomials.cpp', ['-DPART=%d' % i])
                    for i in range(4)] + ELEMENTARY,
    },
    'poisson': {
        'sources': ['poisson.cpp', ('repo/numerics/apodization.cpp', [])] +
                   ELEMENTARY,
    },
    'matrices': {'sources': ['matrices.cpp'] + ELEMENTARY},
    'integrators': {'sources': ['integrators.cpp'] + ELEMENTARY},
    'discrete_trajectory': {
        'sources': ['discrete_trajectory.cpp',
                    ('repo/base/zfp_compressor.cpp', [])] + ELEMENTARY,
        'flags': ASAN, 'ldflags': ['-fsanitize=address'],
    },
    'continuous': {
        'sources': ['continuous.cpp', ('repo/base/flags.cpp', [])] + ELEMENTARY,
        'flags': ASAN, 'ldflags': ['-fsanitize=address'],
    },
    'geopotential': {
        'sources': ['geopotential.cpp'] + ELEMENTARY,
    },
    'ephemeris': {
        'sources': ['ephemeris.cpp', ('repo/base/flags.cpp', []),
                    ('repo/base/zfp_compressor.cpp', [])] + ELEMENTARY,
    },
    'euler': {
        'sources': ['euler.cpp', ('repo/base/flags.cpp', []),
                    ('repo/numerics/elliptic_functions.cpp', []),
                    ('repo/numerics/elliptic_integrals.cpp', [])] + ELEMENTARY,
    },
    'apsides': {
        'sources': ['apsides.cpp', ('repo/base/flags.cpp', []),
                    ('repo/base/zfp_compressor.cpp', [])] + ELEMENTARY,
    },
    'searches': {
        'sources': ['searches.cpp'] + ELEMENTARY,
    },
    'approximations': {
        'sources': ['approximations.cpp',
                    ('repo/numerics/elliptic_integrals.cpp', []),
                    ('repo/numerics/elliptic_functions.cpp', [])] + ELEMENTARY,
    },
    'time': {
        'sources': ['time.cpp'] + ELEMENTARY,
    },
    'kepler': {
        'sources': ['kepler.cpp', ('repo/base/flags.cpp', [])] + ELEMENTARY,
    },
    'frames': {
        'sources': ['frames.cpp', ('repo/base/flags.cpp', []),
                    ('repo/base/zfp_compressor.cpp', [])] + ELEMENTARY,
    },
    # The same on the code paths that use the FMA instructions.
    'floating_point_fma': {
        'sources': ['floating_point.cpp', ('repo/numerics/cbrt.cpp', ['-O2']),
                    ('repo/numerics/sin_cos.cpp', ['-O2']),
                    ('repo/base/cpuid.cpp', []),
                    ('repo/functions/multiprecision.cpp', [])] + SMALL_PROTO,
        'flags': FMA,
        'ldflags': ['-lgmp', '-lquadmath'],
    },
}

# property -> [(target, comma-separated prefixes of sub-properties or '')]
PROPERTIES = {
    'P01': [('base_codecs', '')],
    'P02': [('base_streams', '')],
    'P03': [('base_threads', '')],
    'P04': [('base_utilities', '')],
    'P05': [('floating_point', 'next,log_b,scale_b,ulp_distance,combinatorics,'
             'exact_operations,double_precision,compensated,trunc_frac'),
            ('floating_point_fma', 'exact_operations,double_precision,'
             'compensated')],
    'P06': [('floating_point', 'cbrt,cbrt_one_bit,sin_cos,payne_hanek,'
             'angle_reduction,multiprecision,elementary'),
            ('floating_point_fma', 'cbrt,sin_cos,payne_hanek')],
    'P07': [('quantities', '')],
    'P08': [('geometry_maps', '')],
    'P09': [('geometry_algebra', ''),
            ('geometry_algebra_fma', 'grassmann,r3,forms')],
    'P10': [('polynomials', ''), ('poisson', '')],
    'P11': [('matrices', '')],
    'P14': [('integrators', '')],
    'P15': [('discrete_trajectory', '')],
    'P16': [('continuous', ''), ('ephemeris', 'history')],
    'P17': [('ephemeris', 'forces,dynamics,collisions')],
    'P18': [('frames', '')],
    'P19': [('kepler', '')],
    'P12': [('searches', '')],
    'P13': [('approximations', '')],
    'P23': [('time', '')],
    'P20': [('geopotential', '')],
    'P21': [('euler', '')],
    'P22': [('apsides', '')],
}

ASSUMPTIONS = [
    'The libraries that the build lacks (absl/log, gipfeli, zfp, core-math) '
    'are replaced by the stand-ins of /verif/shim, which have the same '
    'contract.',
]
