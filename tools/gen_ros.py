#!/usr/bin/env python3
"""Generate the C++ message, service and dynamic_reconfigure headers that the
ROS build would generate, offline, into OUT.  sensor_fusion_comm and the .cfg
files are read from the repository under check; common messages are embedded."""
import os, re, sys, types, runpy
repo, out = sys.argv[1], sys.argv[2]
COMMON = {
 'std_msgs/Header': 'uint32 seq\ntime stamp\nstring frame_id',
 'geometry_msgs/Point': 'float64 x\nfloat64 y\nfloat64 z',
 'geometry_msgs/Vector3': 'float64 x\nfloat64 y\nfloat64 z',
 'geometry_msgs/Quaternion': 'float64 x\nfloat64 y\nfloat64 z\nfloat64 w',
 'geometry_msgs/Pose': 'geometry_msgs/Point position\ngeometry_msgs/Quaternion orientation',
 'geometry_msgs/Transform': 'geometry_msgs/Vector3 translation\ngeometry_msgs/Quaternion rotation',
 'geometry_msgs/Twist': 'geometry_msgs/Vector3 linear\ngeometry_msgs/Vector3 angular',
 'geometry_msgs/PoseWithCovariance': 'geometry_msgs/Pose pose\nfloat64[36] covariance',
 'geometry_msgs/TwistWithCovariance': 'geometry_msgs/Twist twist\nfloat64[36] covariance',
 'geometry_msgs/PointStamped': 'Header header\ngeometry_msgs/Point point',
 'geometry_msgs/PoseStamped': 'Header header\ngeometry_msgs/Pose pose',
 'geometry_msgs/PoseWithCovarianceStamped': 'Header header\ngeometry_msgs/PoseWithCovariance pose',
 'geometry_msgs/TransformStamped': 'Header header\nstring child_frame_id\ngeometry_msgs/Transform transform',
 'nav_msgs/Odometry': 'Header header\nstring child_frame_id\ngeometry_msgs/PoseWithCovariance pose\ngeometry_msgs/TwistWithCovariance twist',
 'sensor_msgs/Imu': 'Header header\ngeometry_msgs/Quaternion orientation\nfloat64[9] orientation_covariance\ngeometry_msgs/Vector3 angular_velocity\nfloat64[9] angular_velocity_covariance\ngeometry_msgs/Vector3 linear_acceleration\nfloat64[9] linear_acceleration_covariance',
 'sensor_msgs/NavSatStatus': 'int8 status\nuint16 service',
 'sensor_msgs/NavSatFix': 'Header header\nsensor_msgs/NavSatStatus status\nfloat64 latitude\nfloat64 longitude\nfloat64 altitude\nfloat64[9] position_covariance\nuint8 COVARIANCE_TYPE_UNKNOWN = 0\nuint8 COVARIANCE_TYPE_APPROXIMATED = 1\nuint8 COVARIANCE_TYPE_DIAGONAL_KNOWN = 2\nuint8 COVARIANCE_TYPE_KNOWN = 3\nuint8 position_covariance_type',
}
PRIM = {'float64': 'double', 'float32': 'float', 'int32': 'int32_t', 'uint32': 'uint32_t', 'int8': 'int8_t',
        'uint8': 'uint8_t', 'uint16': 'uint16_t', 'int16': 'int16_t', 'int64': 'int64_t', 'uint64': 'uint64_t',
        'bool': 'uint8_t', 'string': 'std::string', 'time': 'ros::Time'}
def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, 'w').write(text)
def struct(pkg, name, body):
    inc, fields, consts, init = set(), [], [], []
    for line in body.split('\n'):
        line = line.split('#')[0].strip()
        if not line: continue
        m = re.match(r'^(\S+)\s+(\w+)\s*=\s*(\S+)$', line)
        if m:
            consts.append('  enum { %s = %s };' % (m.group(2), m.group(3))); continue
        t, n = line.split()
        m = re.match(r'^([\w/]+)(\[(\d*)\])?$', t)
        base, arr, cnt = m.group(1), m.group(2), m.group(3)
        if base == 'Header': base = 'std_msgs/Header'
        if base in PRIM: ct = PRIM[base]
        else:
            if '/' not in base: base = pkg + '/' + base
            inc.add(base); ct = '::' + base.replace('/', '::')
        if arr is None: ft = ct
        elif cnt: ft = 'boost::array<%s, %s>' % (ct, cnt)
        else: ft = 'std::vector<%s>' % ct
        fields.append('  typedef %s _%s_type;\n  _%s_type %s;' % (ft, n, n, n))
        if arr and cnt: init.append('%s.assign(0);' % n)
        elif not arr and base in PRIM and ct not in ('std::string', 'ros::Time'): init.append('%s = 0;' % n)
    s = '#pragma once\n#include <cstdint>\n#include <string>\n#include <vector>\n#include <boost/array.hpp>\n#include <boost/shared_ptr.hpp>\n#include <ros/time.h>\n'
    s += ''.join('#include <%s.h>\n' % i for i in sorted(inc))
    s += 'namespace %s {\nstruct %s {\n  %s() { %s }\n%s\n%s\n  typedef boost::shared_ptr<%s> Ptr;\n  typedef boost::shared_ptr<%s const> ConstPtr;\n};\n' % (pkg, name, name, ' '.join(init), '\n'.join(consts), '\n'.join(fields), name, name)
    s += 'typedef boost::shared_ptr<%s> %sPtr;\ntypedef boost::shared_ptr<%s const> %sConstPtr;\n}\n' % (name, name, name, name)
    return s
for k, v in COMMON.items():
    p, n = k.split('/'); write(os.path.join(out, p, n + '.h'), struct(p, n, v))
d = os.path.join(repo, 'sensor_fusion_comm', 'msg')
for f in sorted(os.listdir(d)):
    if f.endswith('.msg'): write(os.path.join(out, 'sensor_fusion_comm', f[:-4] + '.h'), struct('sensor_fusion_comm', f[:-4], open(os.path.join(d, f)).read()))
d = os.path.join(repo, 'sensor_fusion_comm', 'srv')
for f in sorted(os.listdir(d)):
    if not f.endswith('.srv'): continue
    n = f[:-4]; req, res = open(os.path.join(d, f)).read().split('---')
    s = struct('sensor_fusion_comm', n + 'Request', req) + struct('sensor_fusion_comm', n + 'Response', res).replace('#pragma once\n', '')
    s += 'namespace sensor_fusion_comm { struct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; }; }\n' % (n, n, n)
    write(os.path.join(out, 'sensor_fusion_comm', n + '.h'), s)
# dynamic_reconfigure: run the real .cfg files against a recording generator.
class Gen:
    def __init__(self): self.params, self.consts = [], []
    def const(self, name, t, v, desc=''): self.consts.append((name, v)); return {'name': name, 'value': v, 'type': t}
    def add(self, name, t, level, desc='', default=None, mn=None, mx=None, *a, **k): self.params.append((name, t, level, default))
    def enum(self, *a, **k): return ''
    def generate(self, pkg, node, name):
        T = {'bool': 'bool', 'double': 'double', 'int': 'int', 'str': 'std::string'}
        lit = lambda t, d: ({'bool': lambda: 'true' if d else 'false', 'double': lambda: repr(float(d or 0)), 'int': lambda: str(int(d or 0)), 'str': lambda: '"%s"' % (d or '')}[t])()
        c = name + 'Config'
        s = '#pragma once\n#include <cstdint>\n#include <string>\nnamespace %s {\nclass %s {\n public:\n' % (pkg, c)
        s += ''.join('  %s %s;\n' % (T[t], n) for n, t, l, d in self.params)
        s += '  %s() { %s }\n' % (c, ' '.join('%s = %s;' % (n, {'bool': 'false', 'double': '0', 'int': '0', 'str': '""'}[t]) for n, t, l, d in self.params))
        s += '  static %s __getDefault__() { %s c; %s return c; }\n' % (c, c, ' '.join('c.%s = %s;' % (n, lit(t, d)) for n, t, l, d in self.params))
        s += '  uint32_t __level__(const %s& o) const { uint32_t l = 0; (void)o; %s return l; }\n};\n' % (c, ' '.join('if (%s != o.%s) l |= %su;' % (n, n, l) for n, t, l, d in self.params))
        s += ''.join('const int %s_%s = %s;\n' % (name, n, v) for n, v in self.consts) + '}\n'
        write(os.path.join(out, pkg, c + '.h'), s); return 0
def stubs():
    r = types.ModuleType('roslib'); r.load_manifest = lambda p: None; sys.modules['roslib'] = r
    for n in ('dynamic_reconfigure', 'dynamic_reconfigure.parameter_generator_catkin', 'dynamic_reconfigure.parameter_generator'):
        m = types.ModuleType(n); m.ParameterGenerator = Gen; m.bool_t, m.double_t, m.int_t, m.str_t = 'bool', 'double', 'int', 'str'
        m.__all__ = ['ParameterGenerator', 'bool_t', 'double_t', 'int_t', 'str_t']; sys.modules[n] = m
stubs()
sys.dont_write_bytecode = True
for d in ('msf_core', 'msf_updates', 'msf_distort'):
    cd = os.path.join(repo, d, 'cfg')
    for f in sorted(os.listdir(cd)):
        if f.endswith('.cfg'):
            src = open(os.path.join(cd, f)).read()
            try: exec(compile(src, f, 'exec'), {'__name__': 'cfg', 'exit': lambda *a: None})
            except SystemExit: pass
