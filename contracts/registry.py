PROPS = {
    "C01": ["shape:basis.*", "shape:gradient.*"],
    "C02": ["shape:connect.*", "shape:mapping.*"],
    "C03": ["transfer:p2g.*"],
    "C04": ["transfer:g2p.*"],
    "C05": ["transfer:affine.*", "transfer:field.*"],
    "C06": ["transfer:momentum.*"],
    "C07": ["step:frame.*", "step:order.*", "step:stale.*", "step:sdf.*"],
    "C08": ["step:limit.*"],
    "C09": ["forces:gravity.*", "forces:damping.*"],
    "C11": ["sdf:*"],
    "C10": ["forces:collider.*"],
    "C12": ["laws:elastic.*", "laws:dtcrit.*", "laws:reset.*"],
    "C13": ["laws:newton.*", "laws:mui.*"],
    "C14": ["laws:dp.*"],
    "C15": ["mcc:mcc.*"],
    "C16": ["measures:*"],
    "C17": ["element:*"],
    "C18": ["contact:*"],
    "C20": ["simio:*"],
    "C19": ["builder:*"],
}
