package com.hbuf.java;

/** Stand-in for the runtime's data interface: the names the generated code uses. */
public interface Data {
	interface FormJson {
		<T> T invoke(String text, Class<? extends T> type) throws Exception;
	}

	FormJson formJson = new FormJson() {
		public <T> T invoke(String text, Class<? extends T> type) throws Exception {
			T v = type.getDeclaredConstructor().newInstance();
			Server.last[0] = v;
			Server.last[1] = text;
			return v;
		}
	};

	byte[] toData() throws Exception;

	<T extends Data> T formData(byte[] data) throws Exception;
}
