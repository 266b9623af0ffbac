"""ISO/IEC 14772-1 (VRML97) node catalogue, transcribed from chapter 6.

One line per node: fields as `x` (exposedField) / `f` (field) TYPE name default,
events as `i` (eventIn) / `o` (eventOut) TYPE name; entries separated by `;`.
Numbers are the standard's own; [] is an empty multiple-valued default.
PointSet's extra size fields are a documented extension of the library and
are left out.
"""
TEXT = r"""
Anchor: x MFNode children []; x SFString description ""; x MFString parameter []; x MFString url []; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1; i MFNode addChildren; i MFNode removeChildren
Appearance: x SFNode material NULL; x SFNode texture NULL; x SFNode textureTransform NULL
AudioClip: x SFString description ""; x SFBool loop FALSE; x SFFloat pitch 1; x SFTime startTime 0; x SFTime stopTime 0; x MFString url []; o SFTime duration_changed; o SFBool isActive
Background: x MFFloat groundAngle []; x MFColor groundColor []; x MFString backUrl []; x MFString bottomUrl []; x MFString frontUrl []; x MFString leftUrl []; x MFString rightUrl []; x MFString topUrl []; x MFFloat skyAngle []; x MFColor skyColor 0 0 0; i SFBool set_bind; o SFBool isBound
Billboard: x SFVec3f axisOfRotation 0 1 0; x MFNode children []; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1; i MFNode addChildren; i MFNode removeChildren
Box: f SFVec3f size 2 2 2
Collision: x MFNode children []; x SFBool collide TRUE; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1; f SFNode proxy NULL; i MFNode addChildren; i MFNode removeChildren; o SFTime collideTime
Color: x MFColor color []
ColorInterpolator: x MFFloat key []; x MFColor keyValue []; i SFFloat set_fraction; o SFColor value_changed
Cone: f SFFloat bottomRadius 1; f SFFloat height 2; f SFBool side TRUE; f SFBool bottom TRUE
Coordinate: x MFVec3f point []
CoordinateInterpolator: x MFFloat key []; x MFVec3f keyValue []; i SFFloat set_fraction; o MFVec3f value_changed
Cylinder: f SFBool bottom TRUE; f SFFloat height 2; f SFFloat radius 1; f SFBool side TRUE; f SFBool top TRUE
CylinderSensor: x SFBool autoOffset TRUE; x SFFloat diskAngle 0.262; x SFBool enabled TRUE; x SFFloat maxAngle -1; x SFFloat minAngle 0; x SFFloat offset 0; o SFBool isActive; o SFRotation rotation_changed; o SFVec3f trackPoint_changed
DirectionalLight: x SFFloat ambientIntensity 0; x SFColor color 1 1 1; x SFVec3f direction 0 0 -1; x SFFloat intensity 1; x SFBool on TRUE
ElevationGrid: i MFFloat set_height; x SFNode color NULL; x SFNode normal NULL; x SFNode texCoord NULL; f MFFloat height []; f SFBool ccw TRUE; f SFBool colorPerVertex TRUE; f SFFloat creaseAngle 0; f SFBool normalPerVertex TRUE; f SFBool solid TRUE; f SFInt32 xDimension 0; f SFFloat xSpacing 1; f SFInt32 zDimension 0; f SFFloat zSpacing 1
Extrusion: i MFVec2f set_crossSection; i MFRotation set_orientation; i MFVec2f set_scale; i MFVec3f set_spine; f SFBool beginCap TRUE; f SFBool ccw TRUE; f SFBool convex TRUE; f SFFloat creaseAngle 0; f MFVec2f crossSection 1 1 1 -1 -1 -1 -1 1 1 1; f SFBool endCap TRUE; f MFRotation orientation 0 0 1 0; f MFVec2f scale 1 1; f SFBool solid TRUE; f MFVec3f spine 0 0 0 0 1 0
Fog: x SFColor color 1 1 1; x SFString fogType "LINEAR"; x SFFloat visibilityRange 0; i SFBool set_bind; o SFBool isBound
FontStyle: f MFString family "SERIF"; f SFBool horizontal TRUE; f MFString justify "BEGIN"; f SFString language ""; f SFBool leftToRight TRUE; f SFFloat size 1; f SFFloat spacing 1; f SFString style "PLAIN"; f SFBool topToBottom TRUE
Group: x MFNode children []; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1; i MFNode addChildren; i MFNode removeChildren
ImageTexture: x MFString url []; f SFBool repeatS TRUE; f SFBool repeatT TRUE
IndexedFaceSet: i MFInt32 set_colorIndex; i MFInt32 set_coordIndex; i MFInt32 set_normalIndex; i MFInt32 set_texCoordIndex; x SFNode color NULL; x SFNode coord NULL; x SFNode normal NULL; x SFNode texCoord NULL; f SFBool ccw TRUE; f MFInt32 colorIndex []; f SFBool colorPerVertex TRUE; f SFBool convex TRUE; f MFInt32 coordIndex []; f SFFloat creaseAngle 0; f MFInt32 normalIndex []; f SFBool normalPerVertex TRUE; f SFBool solid TRUE; f MFInt32 texCoordIndex []
IndexedLineSet: i MFInt32 set_colorIndex; i MFInt32 set_coordIndex; x SFNode color NULL; x SFNode coord NULL; f MFInt32 colorIndex []; f SFBool colorPerVertex TRUE; f MFInt32 coordIndex []
Inline: x MFString url []; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1
LOD: x MFNode level []; f SFVec3f center 0 0 0; f MFFloat range []
Material: x SFFloat ambientIntensity 0.2; x SFColor diffuseColor 0.8 0.8 0.8; x SFColor emissiveColor 0 0 0; x SFFloat shininess 0.2; x SFColor specularColor 0 0 0; x SFFloat transparency 0
MovieTexture: x SFBool loop FALSE; x SFFloat speed 1; x SFTime startTime 0; x SFTime stopTime 0; x MFString url []; f SFBool repeatS TRUE; f SFBool repeatT TRUE; o SFTime duration_changed; o SFBool isActive
NavigationInfo: x MFFloat avatarSize 0.25 1.6 0.75; x SFBool headlight TRUE; x SFFloat speed 1; x MFString type "WALK" "ANY"; x SFFloat visibilityLimit 0; i SFBool set_bind; o SFBool isBound
Normal: x MFVec3f vector []
NormalInterpolator: x MFFloat key []; x MFVec3f keyValue []; i SFFloat set_fraction; o MFVec3f value_changed
OrientationInterpolator: x MFFloat key []; x MFRotation keyValue []; i SFFloat set_fraction; o SFRotation value_changed
PixelTexture: x SFImage image 0 0 0; f SFBool repeatS TRUE; f SFBool repeatT TRUE
PlaneSensor: x SFBool autoOffset TRUE; x SFBool enabled TRUE; x SFVec2f maxPosition -1 -1; x SFVec2f minPosition 0 0; x SFVec3f offset 0 0 0; o SFBool isActive; o SFVec3f trackPoint_changed; o SFVec3f translation_changed
PointLight: x SFFloat ambientIntensity 0; x SFVec3f attenuation 1 0 0; x SFColor color 1 1 1; x SFFloat intensity 1; x SFVec3f location 0 0 0; x SFBool on TRUE; x SFFloat radius 100
PointSet: x SFNode color NULL; x SFNode coord NULL
PositionInterpolator: x MFFloat key []; x MFVec3f keyValue []; i SFFloat set_fraction; o SFVec3f value_changed
ProximitySensor: x SFVec3f center 0 0 0; x SFVec3f size 0 0 0; x SFBool enabled TRUE; o SFBool isActive; o SFVec3f position_changed; o SFRotation orientation_changed; o SFTime enterTime; o SFTime exitTime
ScalarInterpolator: x MFFloat key []; x MFFloat keyValue []; i SFFloat set_fraction; o SFFloat value_changed
Shape: x SFNode appearance NULL; x SFNode geometry NULL
Sound: x SFVec3f direction 0 0 1; x SFFloat intensity 1; x SFVec3f location 0 0 0; x SFFloat maxBack 10; x SFFloat maxFront 10; x SFFloat minBack 1; x SFFloat minFront 1; x SFFloat priority 0; x SFNode source NULL; f SFBool spatialize TRUE
Sphere: f SFFloat radius 1
SphereSensor: x SFBool autoOffset TRUE; x SFBool enabled TRUE; x SFRotation offset 0 1 0 0; o SFBool isActive; o SFRotation rotation_changed; o SFVec3f trackPoint_changed
SpotLight: x SFFloat ambientIntensity 0; x SFVec3f attenuation 1 0 0; x SFFloat beamWidth 1.570796; x SFColor color 1 1 1; x SFFloat cutOffAngle 0.785398; x SFVec3f direction 0 0 -1; x SFFloat intensity 1; x SFVec3f location 0 0 0; x SFBool on TRUE; x SFFloat radius 100
Switch: x MFNode choice []; x SFInt32 whichChoice -1
Text: x MFString string []; x SFNode fontStyle NULL; x MFFloat length []; x SFFloat maxExtent 0
TextureCoordinate: x MFVec2f point []
TextureTransform: x SFVec2f center 0 0; x SFFloat rotation 0; x SFVec2f scale 1 1; x SFVec2f translation 0 0
TimeSensor: x SFTime cycleInterval 1; x SFBool enabled TRUE; x SFBool loop FALSE; x SFTime startTime 0; x SFTime stopTime 0; o SFTime cycleTime; o SFFloat fraction_changed; o SFBool isActive; o SFTime time
TouchSensor: x SFBool enabled TRUE; o SFVec3f hitNormal_changed; o SFVec3f hitPoint_changed; o SFVec2f hitTexCoord_changed; o SFBool isActive; o SFBool isOver; o SFTime touchTime
Transform: x SFVec3f center 0 0 0; x MFNode children []; x SFRotation rotation 0 0 1 0; x SFVec3f scale 1 1 1; x SFRotation scaleOrientation 0 0 1 0; x SFVec3f translation 0 0 0; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1; i MFNode addChildren; i MFNode removeChildren
Viewpoint: i SFBool set_bind; x SFFloat fieldOfView 0.785398; x SFBool jump TRUE; x SFRotation orientation 0 0 1 0; x SFVec3f position 0 0 10; f SFString description ""; o SFTime bindTime; o SFBool isBound
VisibilitySensor: x SFVec3f center 0 0 0; x SFBool enabled TRUE; x SFVec3f size 0 0 0; o SFTime enterTime; o SFTime exitTime; o SFBool isActive
WorldInfo: f MFString info []; f SFString title ""
"""
WIDTH = {'SFVec2f': 2, 'SFVec3f': 3, 'SFColor': 3, 'SFRotation': 4}
MWIDTH = {'MFVec2f': 2, 'MFVec3f': 3, 'MFColor': 3, 'MFRotation': 4}
SCALARS = ('SFBool', 'SFInt32', 'SFFloat', 'SFTime', 'SFString')
MSCALARS = ('MFInt32', 'MFFloat', 'MFTime', 'MFString')
# every VRML97 field type a PROTO or Script interface may use
TYPES = SCALARS + MSCALARS + tuple(WIDTH) + tuple(MWIDTH) + ('SFImage', 'SFNode', 'MFNode')


def _default(typ, words):
    if words == ['[]']:
        return []
    if words == ['NULL']:
        return None
    if typ == 'SFBool':
        return words[0] == 'TRUE'
    if typ == 'SFString':
        return words[0][1:-1]
    if typ == 'MFString':
        return [w[1:-1] for w in words]
    if typ in ('SFInt32', 'SFFloat', 'SFTime'):
        return words[0]
    if typ in WIDTH or typ in ('SFImage', 'MFFloat', 'MFInt32', 'MFTime'):
        return words
    w = MWIDTH[typ]
    return [words[i:i + w] for i in range(0, len(words), w)]


class Spec:
    def __init__(self, name):
        self.name = name
        self.fields = {}   # name -> (exposed, type, default AST)
        self.events = {}   # name -> (direction 'in'/'out', type)


NODES = {}
for _line in TEXT.strip().splitlines():
    _name, _rest = _line.split(':', 1)
    _s = NODES[_name] = Spec(_name)
    for _item in _rest.split(';'):
        _w = _item.split()
        if _w[0] in 'xf':
            _s.fields[_w[2]] = (_w[0] == 'x', _w[1], _default(_w[1], _w[3:]))
        else:
            _s.events[_w[2]] = ('in' if _w[0] == 'i' else 'out', _w[1])

# what may be put in the node-valued fields
CHILDREN = ['Anchor', 'Background', 'Billboard', 'Collision', 'ColorInterpolator', 'CoordinateInterpolator', 'CylinderSensor',
            'DirectionalLight', 'Fog', 'Group', 'Inline', 'LOD', 'NavigationInfo', 'NormalInterpolator', 'OrientationInterpolator',
            'PlaneSensor', 'PointLight', 'PositionInterpolator', 'ProximitySensor', 'ScalarInterpolator', 'Shape', 'Sound',
            'SphereSensor', 'SpotLight', 'Switch', 'TimeSensor', 'TouchSensor', 'Transform', 'Viewpoint', 'VisibilitySensor', 'WorldInfo']
GROUPS = ['Group', 'Transform', 'Switch', 'LOD', 'Anchor', 'Billboard', 'Collision', 'Shape']
GEOMETRY = ['Box', 'Cone', 'Cylinder', 'ElevationGrid', 'Extrusion', 'IndexedFaceSet', 'IndexedLineSet', 'PointSet', 'Sphere', 'Text']
ALLOWED = {
    'children': CHILDREN, 'level': CHILDREN, 'choice': CHILDREN, 'proxy': CHILDREN,
    'appearance': ['Appearance'], 'material': ['Material'], 'texture': ['ImageTexture', 'MovieTexture', 'PixelTexture'],
    'textureTransform': ['TextureTransform'], 'geometry': GEOMETRY, 'coord': ['Coordinate'], 'color': ['Color'], 'normal': ['Normal'],
    'texCoord': ['TextureCoordinate'], 'fontStyle': ['FontStyle'], 'source': ['AudioClip', 'MovieTexture'],
}
