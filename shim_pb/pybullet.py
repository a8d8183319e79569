"""
Stand-in for pybullet with exact motion (see spec/SimCore.tla): used only by
the check of the sample generator, so that every datum it produces is
determined.
"""
import math

import numpy as np

GUI, DIRECT, VELOCITY_CONTROL = 1, 2, 3
URDF_USE_SELF_COLLISION = 8
URDF_ENABLE_CACHED_GRAPHICS_SHAPES = 16
URDF_USE_INERTIA_FROM_FILE = 32


class _W:
    pass


W = _W()
W.bodies = {}
W.clock = 0
W.saved = {}
W.connected = 0
W.calls = []


def fresh(kind, n):
    W.kind, W.n = kind, n
    m = n if kind == "joint" else 6
    W.q = [0.] * m
    W.v = [0.] * m
    W.clock = 0
    W.saved = {}
    W.calls = []
    W.motors = {}
    return 7


def _num(a):
    return [float(x) for x in a]


def connect(mode, *a, **k):
    W.connected += 1
    return 0


def disconnect(*a, **k):
    W.connected -= 1


def setGravity(*a, **k):
    W.gravity = a


def setTimeStep(t, *a, **k):
    W.timestep = t


def setPhysicsEngineParameter(*a, **k):
    pass


def computeViewMatrix(*a, **k):
    return ("view", repr(a) + repr(k))


def computeProjectionMatrixFOV(*a, **k):
    return ("proj", repr(a) + repr(k))


def getNumJoints(body, *a, **k):
    return W.n


def setJointMotorControl2(body, j, mode=None, *a, **k):
    W.motors[j] = k.get("force", None)


def setJointMotorControlArray(body, js, mode=None, *a, **k):
    for j in js:
        W.motors[j] = 0


def stepSimulation(*a, **k):
    for i in range(len(W.q)):
        W.q[i] += W.v[i]
    for i in range(len(W.q)):
        W.v[i] += i + 1
    W.clock += 1


def saveState(*a, **k):
    i = len(W.saved)
    W.saved[i] = (list(W.q), list(W.v), W.clock)
    return i


def restoreState(stateId=None, *a, **k):
    q, v, c = W.saved[stateId]
    W.q, W.v, W.clock = list(q), list(v), c


def resetJointState(body, j, q, v=0., *a, **k):
    v = k.get("targetVelocity", v)
    q = k.get("targetValue", q)
    W.q[j], W.v[j] = float(q), float(v)


def getQuaternionFromEuler(e, *a, **k):
    return tuple(_num(e)) + (77.,)


def getEulerFromQuaternion(q, *a, **k):
    assert q[3] == 77.
    return tuple(q[:3])


def resetBasePositionAndOrientation(body, pos, orn, *a, **k):
    assert len(orn) == 4 and orn[3] == 77.
    W.q = _num(pos) + _num(orn)[:3]


def resetBaseVelocity(body, linearVelocity=None, angularVelocity=None,
                      *a, **k):
    if linearVelocity is not None:
        W.v[:3] = _num(linearVelocity)
    if angularVelocity is not None:
        W.v[3:] = _num(angularVelocity)


def getJointStates(body, js, *a, **k):
    return tuple((W.q[j], W.v[j], (0.,) * 6, 0.) for j in js)


def getJointState(body, j, *a, **k):
    return getJointStates(body, [j])[0]


def getBasePositionAndOrientation(body, *a, **k):
    return tuple(W.q[:3]), tuple(W.q[3:]) + (77.,)


def getBaseVelocity(body, *a, **k):
    return tuple(W.v[:3]), tuple(W.v[3:])


def getCameraImage(width, height, viewMatrix=None, projectionMatrix=None,
                   *a, **k):
    assert viewMatrix[0] == "view" and projectionMatrix[0] == "proj"
    s = W.q + W.v
    base = math.floor(sum(4 * (i + 1) * x for i, x in enumerate(s)))
    img = np.zeros((height, width, 4), dtype=np.uint8)
    for r in range(height):
        for c in range(width):
            for ch in range(3):
                img[r, c, ch] = (base + 5 * W.clock + 70 * ch + 3 * r +
                                 c) % 256
            img[r, c, 3] = 255
    return width, height, img, None, None


def loadURDF(*a, **k):
    W.calls.append((a, k))
    return len(W.calls)


def setAdditionalSearchPath(*a, **k):
    pass
