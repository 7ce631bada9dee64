class Adam:
    def __init__(self, _params, lr=1e-3, betas=(0.9, 0.999), eps=1e-8, weight_decay=0, amsgrad=False):
        self.settings = dict(lr=lr, betas=betas, eps=eps, weight_decay=weight_decay)


class lr_scheduler:
    class ReduceLROnPlateau:
        def __init__(self, *_args, **_kwargs):
            pass
