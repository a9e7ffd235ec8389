"""Settings classes as a project writes them (string annotations), for C42."""
from __future__ import annotations

from asyncz.conf.global_settings import Settings as BaseSettings


class Documented(BaseSettings):
    debug = True
    secret_key = "development-only-secret"


class Annotated(BaseSettings):
    debug: bool = True
    secret_key: str | None = "annotated"
    retries: int = 3
    tags: list[str] = ["a"]


class Grandchild(Annotated):
    retries = 5
    region: str = "eu"

    @property
    def region_and_retries(self):
        return f"{self.region}-{self.retries}"


class Dash(BaseSettings):
    secret_key = "dash"

    @property
    def dashboard_config(self):
        from asyncz.contrib.dashboard.config import DashboardConfig

        return DashboardConfig(secret_key=self.secret_key, title="T", dashboard_url_prefix="/dash")


class Hook(BaseSettings):
    def post_init(self):
        self.secret_key = (self.secret_key or "none") + "-seen"
